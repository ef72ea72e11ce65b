namespace FsToolkit.ErrorHandling

// Minimal offline stand-in for the parts of FsToolkit.ErrorHandling 2.7.0 that asn1scc uses.
[<AutoOpen>]
module ResultCE =
    type ResultBuilder() =
        member _.Return(v) : Result<'a,'e> = Ok v
        member _.ReturnFrom(r: Result<'a,'e>) = r
        member _.Zero() : Result<unit,'e> = Ok ()
        member _.Bind(r: Result<'a,'e>, f: 'a -> Result<'b,'e>) = Result.bind f r
        member _.Delay(f: unit -> Result<'a,'e>) = f
        member _.Run(f: unit -> Result<'a,'e>) = f ()
        member _.Combine(r: Result<unit,'e>, f: unit -> Result<'a,'e>) = Result.bind f r
        member _.TryWith(f: unit -> Result<'a,'e>, h: exn -> Result<'a,'e>) = try f () with e -> h e
        member _.TryFinally(f: unit -> Result<'a,'e>, c: unit -> unit) = try f () finally c ()
        member _.Using(d: 'd :> System.IDisposable, f: 'd -> Result<'a,'e>) = use x = d in f x
        member this.While(g: unit -> bool, f: unit -> Result<unit,'e>) : Result<unit,'e> =
            let mutable r = Ok ()
            while (match r with Ok () -> g () | Error _ -> false) do r <- f ()
            r
        member this.For(s: seq<'t>, f: 't -> Result<unit,'e>) : Result<unit,'e> =
            use e = s.GetEnumerator()
            this.While(e.MoveNext, fun () -> f e.Current)
    let result = ResultBuilder()

[<RequireQualifiedAccess>]
module List =
    let traverseResultM (f: 'a -> Result<'b,'e>) (xs: 'a list) : Result<'b list,'e> =
        let rec go acc = function
            | [] -> Ok (List.rev acc)
            | x::tl -> match f x with Ok v -> go (v::acc) tl | Error e -> Error e
        go [] xs
    let sequenceResultM (xs: Result<'a,'e> list) = traverseResultM id xs
