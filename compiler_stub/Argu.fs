namespace Argu
// Minimal offline stand-in for the parts of Argu 6.2.5 that asn1scc/Program.fs uses.
open System
open System.Reflection
open Microsoft.FSharp.Reflection
open Microsoft.FSharp.Quotations
open Microsoft.FSharp.Quotations.Patterns

type ArguParseException(msg: string) = inherit Exception(msg)
type IArgParserTemplate = abstract Usage : string

[<AttributeUsage(AttributeTargets.All, AllowMultiple = true)>]
type AltCommandLineAttribute(name: string) =
    inherit Attribute()
    member _.Name = name
type UniqueAttribute() = inherit Attribute()
type MainCommandAttribute() = inherit Attribute()
type ExactlyOnceAttribute() = inherit Attribute()
type LastAttribute() = inherit Attribute()

module internal Impl =
    let rec caseOf (e: Expr) : UnionCaseInfo =
        match e with
        | NewUnionCase (u, _) -> u
        | Lambda (_, b) -> caseOf b
        | Let (_, _, b) -> caseOf b
        | _ -> failwithf "unsupported quotation %A" e

type ParseResults<'T>(items: 'T list) =
    let tag (x: 'T) = let u, f = FSharpValue.GetUnionFields(box x, typeof<'T>) in u.Tag, f
    let find (u: UnionCaseInfo) = items |> List.tryFind (fun i -> fst (tag i) = u.Tag)
    member _.GetAllResults() = items
    member _.Contains(e: Expr<'T>) = (find (Impl.caseOf e)).IsSome
    member _.Contains(e: Expr<'F -> 'T>) = (find (Impl.caseOf e)).IsSome
    member _.TryGetResult(e: Expr<'F -> 'T>) : 'F option =
        find (Impl.caseOf e) |> Option.map (fun i -> (snd (tag i)).[0] |> unbox<'F>)
    member this.GetResult(e: Expr<'F -> 'T>, ?defaultValue: 'F) : 'F =
        match this.TryGetResult e with
        | Some v -> v
        | None -> match defaultValue with
                  | Some d -> d
                  | None -> raise (ArguParseException "ERROR: missing parameter")

type ArgumentParser<'T>() =
    let cases = FSharpType.GetUnionCases typeof<'T>
    let hasAttr (u: UnionCaseInfo) (t: Type) = u.GetCustomAttributes t |> Array.isEmpty |> not
    let names (u: UnionCaseInfo) =
        let alts = u.GetCustomAttributes typeof<AltCommandLineAttribute>
                   |> Array.map (fun a -> (a :?> AltCommandLineAttribute).Name) |> Array.toList
        ("--" + u.Name.ToLower().Replace('_', '-')) :: alts
    let main = cases |> Array.tryFind (fun u -> hasAttr u typeof<MainCommandAttribute>)
    let table = cases |> Seq.collect (fun u -> names u |> Seq.map (fun n -> n, u)) |> dict
    let rec conv (t: Type) (s: string) : obj =
        if t = typeof<string> then box s
        elif t = typeof<int> then (match Int32.TryParse s with true, v -> box v | _ -> raise (ArguParseException ("ERROR: bad int " + s)))
        elif t = typeof<uint32> then (match UInt32.TryParse s with true, v -> box v | _ -> raise (ArguParseException ("ERROR: bad uint " + s)))
        elif FSharpType.IsUnion t then
            match FSharpType.GetUnionCases t |> Array.tryFind (fun c -> c.Name.ToLower() = s.ToLower()) with
            | Some c -> FSharpValue.MakeUnion(c, [||])
            | None -> raise (ArguParseException ("ERROR: bad value " + s))
        else failwithf "type %A" t
    member _.Parse(argv: string[]) : ParseResults<'T> =
        let rec go (args: string list) (acc: 'T list) (files: string list) =
            match args with
            | [] -> acc, files
            | a::tl when table.ContainsKey a ->
                let u = table.[a]
                let f = u.GetFields()
                if f.Length = 0 then go tl ((FSharpValue.MakeUnion(u, [||]) :?> 'T)::acc) files
                else
                    let t = f.[0].PropertyType
                    if t.IsGenericType && t.GetGenericTypeDefinition() = typedefof<option<_>> then
                        let inner = t.GetGenericArguments().[0]
                        let some v = FSharpValue.MakeUnion(FSharpType.GetUnionCases t |> Array.find (fun c -> c.Name = "Some"), [|v|])
                        let none = null
                        match tl with
                        | v::tl2 when not (v.StartsWith "-") && not (v.Contains ".") ->
                            go tl2 ((FSharpValue.MakeUnion(u, [|some (conv inner v)|]) :?> 'T)::acc) files
                        | _ -> go tl ((FSharpValue.MakeUnion(u, [|none|]) :?> 'T)::acc) files
                    else
                        match tl with
                        | v::tl2 -> go tl2 ((FSharpValue.MakeUnion(u, [|conv t v|]) :?> 'T)::acc) files
                        | [] -> raise (ArguParseException ("ERROR: argument '" + a + "' must be followed by a parameter"))
            | a::_ when a.StartsWith "-" -> raise (ArguParseException ("ERROR: unrecognized argument: '" + a + "'"))
            | a::tl -> go tl acc (a::files)
        let acc, files = go (List.ofArray argv) [] []
        let acc = List.rev acc
        match main, files with
        | Some _, [] -> raise (ArguParseException "ERROR: missing parameter 'files'")
        | Some m, _ -> ParseResults(acc @ [FSharpValue.MakeUnion(m, [|box (List.rev files)|]) :?> 'T])
        | None, _ -> ParseResults acc

type ArgumentParser =
    static member Create<'T>(?programName: string) = ArgumentParser<'T>()
