module Driver
// usage: driver search BASE COUNT REPORTDIR SECONDS | driver replay FILE
open System
open System.IO
open System.Net
open System.Text
open System.Collections.Generic
open VfSim

type Req = { path: string; body: string; at: int64; wire: Wire; client: SimClient; mutable accepted: bool; gone: bool; mutable refused: bool; mutable ctxAt: int64; brokenBody: bool }

type FailingStream(b: byte[]) =
    inherit MemoryStream(b)
    override s.Read(buf: byte[], o: int, n: int) : int = raise (HttpListenerException 64)
    override s.Read(buf: Span<byte>) : int = raise (HttpListenerException 64)

let mutable violationSig = ""
let mutable violationText = ""

let scenario () : bool =
    S.faults <- S.draw 4 > 0
    if not S.faults then S.stat "probe.fault-free-run"
    let watchdog = S.chance 75
    let ms = if watchdog then 1 + [| 100; 5; 20; 60; 250 |].[S.draw 5] else -1
    let prefix = [| "http://localhost:9749/"; "http://+:9749/"; "http://localhost:9749/asn1/" |].[S.draw 3]
    let stall = if S.faults then [| 0; 0; 5; 25 |].[S.draw 4] else 0
    let slowStart = S.faults && S.chance 10
    let n = 1 + S.draw 10
    let root = Uri(prefix.Replace("+", "localhost"))
    let mutable t = int64 (S.draw 30)
    let reqs = List<Req>()
    let nontriv = ref false
    for i in 1 .. n do
        let k = S.draw 10
        let path = if k < 4 then "stayAlive" elif k < 6 then "version" elif k < 8 then "ast" else [| "nope"; ""; "ast/x"; "StayAlive"; "../version" |].[S.draw 5]
        let body = if path = "ast" then [| "{ok}"; "{fail}"; "garbage"; "{unserializable}"; "" |].[S.draw 5] else ""
        let gone = S.faults && S.chance 12
        let c = SimClient()
        let r = { path = path; body = body; at = t; wire = Wire(); client = c; accepted = false; gone = gone; refused = false; ctxAt = -1L; brokenBody = path = "ast" && S.faults && S.chance 10 }
        reqs.Add r
        S.at t (fun () ->
            let b = Encoding.UTF8.GetBytes r.body
            let ctx = HttpListenerContext(HttpListenerRequest(Uri(root, r.path), (if r.brokenBody then (new FailingStream(b) :> Stream) else new MemoryStream(b)), "POST"), new HttpListenerResponse(r.wire, c))
            match HttpListener.Last with
            | null -> r.refused <- true
            | l ->
                if l.Arrive ctx then
                    r.accepted <- true
                    r.ctxAt <- S.now
                    S.ev (sprintf "request %s %s arrives" r.path r.body)
                else r.refused <- true)
        if r.brokenBody then S.stat "fault.request-body-unreadable"
        if gone then
            S.stat "fault.client-gone"
            S.at (t + int64 (S.draw 4)) (fun () -> c.Gone <- true; S.ev "a client goes away")
        t <- t + (match S.draw 4 with
                  | 0 -> int64 (S.draw 3)
                  | 1 -> int64 (S.draw 30)
                  | _ -> int64 (if ms > 0 then S.draw (ms + 3) else S.draw 50))
    let rc = ref -99
    let endAt, endOrder = ref -1L, ref 0
    HttpListener.Last <- Unchecked.defaultof<_>
    S.spawn "main" (fun () ->
        if slowStart then S.stat "probe.slow-start"
        rc.Value <- Daemon.Program.main [| "--uri"; prefix; "--watchdog"; string ms |]
        endAt.Value <- S.now
        endOrder.Value <- S.tick ())
    let limit = t + (if ms > 0 then int64 ms * 3L else 200L) + 3000L
    let steps = S.run limit 6000 (if slowStart then 60 else stall)
    let l = HttpListener.Last
    let listenerStopped = not (isNull (box l)) && l.StoppedAt >= 0L
    let stopped = listenerStopped || rc.Value <> -99
    let stopAt, stopOrder = if listenerStopped then l.StoppedAt, l.StopOrder else endAt.Value, endOrder.Value
    let fail s t = violationSig <- s; violationText <- t; false
    let keepAlives = reqs |> Seq.filter (fun r -> r.path = "stayAlive" && r.accepted) |> Seq.toList
    let ka = keepAlives |> List.filter (fun r -> r.wire.Status = 200 && r.wire.Ended > 0)
    /// a timer that elapsed before the stop, and no keep-alive completed before it had arrived less than ms earlier
    let justified =
        stopped && S.elapsed |> Seq.exists (fun (struct (at, o)) ->
            o < stopOrder && at >= int64 ms && ka |> List.forall (fun r -> r.wire.EndOrder > o || r.ctxAt + int64 ms <= at))
    /// the last moment at which a keep-alive can have been processed before the stop
    let lastAlive = keepAlives |> List.fold (fun a r -> max a (if r.wire.EndedAt > 0L then r.wire.EndedAt else r.ctxAt + S.stalled + 1L)) 0L
    let ok =
        if not (isNull S.unhandled) then fail ("unhandled:" + (if S.unhandled.Contains " in handler" then "handler" elif S.unhandled.Contains " in main" || S.unhandled.Contains " in accept" then "serve" else "other")) S.unhandled
        elif steps > 6000 then fail "livelock" "the server does not become idle"
        elif rc.Value <> -99 && not watchdog then fail "ended" "the server ended although nothing stopped it"
        elif rc.Value <> -99 && rc.Value <> 0 then fail "status" (sprintf "the daemon ended with status %d" rc.Value)
        elif stopped && not watchdog then fail "stopped" "the server stopped although the watchdog is disabled"
        elif stopped && not justified then fail "early-stop" (sprintf "stopped at %d ms, although a keep-alive request was processed less than %d ms before" stopAt ms)
        elif watchdog && not stopped && rc.Value <> 0 then fail "no-stop" (sprintf "still running %d ms after the last request, watchdog %d ms" (S.now - t) ms)
        elif watchdog && stopped && stopAt > lastAlive + int64 ms + S.stalled + 1L then fail "late-stop" (sprintf "stopped at %d ms" stopAt)
        elif watchdog && rc.Value <> 0 then fail "not-ended" "the watchdog stopped the server but the serve loop did not end"
        else
            let bad =
                reqs |> Seq.tryPick (fun r ->
                    let w = r.wire
                    if not r.accepted || r.gone then (if w.Ended > 1 then Some("twice", r) else None)
                    elif stopped && r.ctxAt + S.stalled + 2L >= stopAt then (if w.Ended > 1 then Some("twice", r) else None)
                    elif w.Ended > 1 then Some("twice", r)
                    elif w.Ended = 0 then
                        // an answer that breaks off because the service failed after the head was sent is completed by aborting it
                        if w.Broken > 0 && r.body = "{unserializable}" then None else Some("no-response", r)
                    else
                        let body = Encoding.UTF8.GetString(w.Body.ToArray())
                        let want =
                            match r.path with
                            | "stayAlive" -> if watchdog then 200 else 404
                            | "version" -> 200
                            | "ast" -> if r.brokenBody then 500 elif r.body = "{ok}" then 200 elif r.body = "{unserializable}" then 0 else 500
                            | "../version" -> 0
                            | _ -> 404
                        if want <> 0 && w.Status <> want then Some(sprintf "status-%d-not-%d" w.Status want, r)
                        elif r.path = "stayAlive" && w.Status = 200 && body <> "OK" then Some("body", r)
                        elif r.path = "ast" && w.Status = 200 && r.body = "{ok}" && body.Trim(char 0xFEFF) <> "ast-of-{ok}" then Some("body", r)
                        else None)
            match bad with
            | Some(s, r) -> fail s (sprintf "request %s %s at %d ms: %s (status %d, completed %d times, broken %d)" r.path r.body r.at s r.wire.Status r.wire.Ended r.wire.Broken)
            | None -> true
    if reqs.Exists(fun r -> r.accepted) then S.stat "probe.nontrivial"
    if stopped then S.stat "probe.watchdog-stopped"
    if ka.Length > 0 then S.stat "probe.keep-alive"
    S.stats.["simulated_ms"] <- (match S.stats.TryGetValue "simulated_ms" with | true, v -> v | _ -> 0L) + S.now
    S.stats.["steps"] <- (match S.stats.TryGetValue "steps" with | true, v -> v | _ -> 0L) + int64 steps
    S.abort ()
    ok

let once seed (tp: int[]) =
    S.reset seed tp
    violationSig <- ""
    let ok = scenario ()
    ok, violationSig, S.hash, S.tape.ToArray()

let minimise (tape: int[]) sg =
    let mutable best = tape
    let test t = let (ok, s, _, _) = once 0UL t in not ok && s = sg
    let mutable size = best.Length / 2
    let t0 = DateTime.UtcNow
    while size >= 1 && (DateTime.UtcNow - t0).TotalSeconds < 20.0 do
        let mutable i = 0
        while i < best.Length && (DateTime.UtcNow - t0).TotalSeconds < 20.0 do
            let c = Array.append best.[.. i - 1] (if i + size < best.Length then best.[i + size ..] else [||])
            if test c then best <- c
            else
                let z = Array.mapi (fun j v -> if j >= i && j < i + size then 0 else v) best
                if z <> best && test z then best <- z
                i <- i + size
        size <- size / 2
    best

let esc (s: string) = s.Replace("\\", "\\\\").Replace("\"", "\\\"").Replace("\n", "\\n").Replace("\r", "")

[<EntryPoint>]
let main a =
    let out = Console.Out
    let printfn f = Printf.kprintf (fun (t: string) -> out.WriteLine t; out.Flush()) f
    Console.SetOut TextWriter.Null
    if a.[0] = "replay" then
        let tape = File.ReadAllLines a.[1] |> Array.filter (fun l -> not (l.StartsWith "#") && l <> "") |> Array.collect (fun l -> l.Split ' ' |> Array.map int)
        let (ok, s, h, _) = once 0UL tape
        for l in S.log do printfn "%s" l
        printfn "%s %s" (if ok then "no violation" else "VIOLATED " + s + ": " + violationText) (h.ToString "x")
        (if ok then 0 else 1)
    else
        let b, n, wall = uint64 a.[1], int a.[2], float a.[4]
        let hashes = HashSet<uint64>()
        let sigs = HashSet<string>()
        let viol = List<string>()
        let t0 = DateTime.UtcNow
        let mutable runs, nt, det, detbad = 0, 0, 0, 0
        let mutable i = 0
        let samples = List<string>()
        while i < n && (DateTime.UtcNow - t0).TotalSeconds < wall && viol.Count < 4 do
            let seed = (b + uint64 i) * 0x9E3779B97F4A7C15UL
            let before = (match S.stats.TryGetValue "probe.nontrivial" with | true, v -> v | _ -> 0L)
            let (ok, s, h, tape) = once seed null
            runs <- runs + 1
            if (match S.stats.TryGetValue "probe.nontrivial" with | true, v -> v | _ -> 0L) > before then hashes.Add h |> ignore
            if i % 1000 = 7 && samples.Count < 1 then samples.Add(String.Join("\n", S.log))
            if i % 200 = 3 then
                det <- det + 1
                let (_, s2, h2, _) = once seed null
                if h2 <> h || s2 <> s then detbad <- detbad + 1
            if not ok && sigs.Add s then
                let (_, s1, _, _) = once 0UL tape
                if s1 = s then
                    let m = minimise tape s
                    let (_, _, _, used) = once 0UL m
                    let f = Path.Combine(a.[3], sprintf "W01_%d_%d.replay" b i)
                    File.WriteAllText(f, sprintf "# replay file: property W01\n# violation %s\n# %s\n# seed %d\n%s\n" s violationText (b + uint64 i) (String.Join(" ", m)))
                    viol.Add(sprintf "{\"sig\":\"%s\",\"text\":\"%s\",\"replay\":\"%s\",\"seed\":%d}" (esc s) (esc violationText) f (b + uint64 i))
            i <- i + 1
        let st = String.Join(",", S.stats |> Seq.map (fun k -> sprintf "\"%s\":%d" k.Key k.Value))
        printfn "{\"runs\":%d,\"distinct\":%d,\"wall\":%f,\"det\":%d,\"detbad\":%d,\"stats\":{%s},\"viol\":[%s],\"sample\":\"%s\"}" runs hashes.Count (DateTime.UtcNow - t0).TotalSeconds det detbad st (String.Join(",", viol)) (if samples.Count > 0 then esc samples.[0] else "")
        exit 0
