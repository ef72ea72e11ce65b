// The simulated world of the daemon: threads with one baton, a virtual clock, and simulated versions of the types the
// daemon uses from System.Net (HttpListener...), System.Timers, CommandLine, Newtonsoft.Json and Service.
namespace VfSim

open System
open System.Collections.Generic
open System.Threading

exception AbortRun

[<AllowNullLiteral>]
type Th(name: string) =
    member val Name = name
    member val Sem = new SemaphoreSlim(0)
    member val Ready = true with get, set
    member val Done = false with get, set
    member val Since = 0L with get, set
    member val Waiting : (unit -> bool) = (fun () -> true) with get, set

module S =
    let mutable rng = 0UL
    let tape = List<int>()
    let mutable replay : int[] = null
    let mutable pos = 0
    let mutable now = 0L
    let mutable stalled = 0L
    let mutable aborting = false
    /// does this run inject faults?
    let mutable faults = true
    let mutable throws = 0
    let mutable cur : Th = null
    let threads = List<Th>()
    let back = new SemaphoreSlim(0)
    let events = List<struct (int64 * int * (unit -> unit))>()
    let mutable seq = 0
    let log = List<string>()
    let stats = Dictionary<string, int64>()
    /// (time, order) of every timer that elapsed
    let elapsed = List<struct (int64 * int)>()
    let mutable order = 0
    let tick () = order <- order + 1; order
    let mutable unhandled : string = null
    let mutable hash = 14695981039346656037UL
    let stat k = stats.[k] <- (match stats.TryGetValue k with | true, v -> v + 1L | _ -> 1L)
    let ev (s: string) =
        for c in s do
            hash <- (hash ^^^ uint64 c) * 1099511628211UL
        log.Add(sprintf "[%6d ms] %s" now s)
    let draw n =
        let v =
            if not (isNull replay) then
                let v = if pos < replay.Length then replay.[pos] % n else 0
                pos <- pos + 1
                v
            else
                rng <- rng + 0x9E3779B97F4A7C15UL
                let mutable z = rng
                z <- (z ^^^ (z >>> 30)) * 0xBF58476D1CE4E5B9UL
                z <- (z ^^^ (z >>> 27)) * 0x94D049BB133111EBUL
                int ((z ^^^ (z >>> 31)) >>> 11 &&& 0x7FFFFFFFUL) % n
        tape.Add v
        v
    let chance p = draw 100 >= 100 - p
    let at t f = seq <- seq + 1; events.Add(struct (t, seq, f))
    /// give the baton back; resumes when the scheduler picks this thread and the condition holds
    let switch (cond: unit -> bool) =
        if aborting then
            throws <- throws + 1
            if throws > 200 then Thread.Sleep Timeout.Infinite
            raise AbortRun
        let t = cur
        t.Waiting <- cond
        back.Release() |> ignore
        t.Sem.Wait()
        if aborting then
            throws <- throws + 1
            if throws > 200 then Thread.Sleep Timeout.Infinite
            raise AbortRun
    let yield_ () = switch (fun () -> true)
    let spawn name (f: unit -> unit) =
        let t = Th(name)
        threads.Add t
        let th =
            Thread((fun () ->
                t.Sem.Wait()
                try
                    if not aborting then f ()
                with
                | AbortRun -> ()
                | e -> if not aborting && isNull unhandled then
                            unhandled <- sprintf "unhandled %s in %s: %s" (e.GetType().Name) t.Name e.Message
                            ev unhandled
                t.Done <- true
                back.Release() |> ignore), 512 * 1024)
        th.IsBackground <- true
        th.Start()
    let step (t: Th) =
        cur <- t
        t.Sem.Release() |> ignore
        back.Wait()
        cur <- null
    /// runs until nothing is left to do or the time limit; stall: chance in percent that time passes although work is pending
    let run (limit: int64) (maxSteps: int) (stallPct: int) =
        let mutable steps = 0
        let mutable go = true
        while go do
            steps <- steps + 1
            let ready = threads.FindAll(fun t -> not t.Done && t.Waiting())
            let due = events.FindAll(fun (struct (t, _, _)) -> t <= now)
            if steps > maxSteps || not (isNull unhandled) then go <- false
            elif due.Count > 0 && (ready.Count = 0 || draw 3 = 0) then
                due.Sort(fun (struct (a, x, _)) (struct (b, y, _)) -> compare (a, x) (b, y))
                let k = draw due.Count
                let (struct (_, sq, f)) = due.[k]
                events.RemoveAll(fun (struct (_, q, _)) -> q = sq) |> ignore
                f ()
            elif ready.Count > 0 then
                if stallPct > 0 && chance stallPct then
                    let d = int64 (1 + draw 40)
                    now <- now + d
                    stalled <- stalled + d
                    stat "fault.stall"
                step ready.[draw ready.Count]
                threads.RemoveAll(fun t -> t.Done) |> ignore
            elif events.Count > 0 then
                let mutable m = Int64.MaxValue
                for struct (t, _, _) in events do m <- min m t
                if m > limit then (now <- limit; go <- false) else now <- max now m
            else go <- false
            if now >= limit then go <- false
        steps
    let abort () =
        aborting <- true
        let mutable n = 0
        while threads.Exists(fun t -> not t.Done) && n < 2000 do
            n <- n + 1
            for t in threads.FindAll(fun t -> not t.Done) do
                cur <- t
                t.Sem.Release() |> ignore
                back.Wait(200) |> ignore
        threads.Clear()
        while back.CurrentCount > 0 do back.Wait(0) |> ignore
    let reset seed (tp: int[]) =
        rng <- seed; replay <- tp; pos <- 0; tape.Clear(); now <- 0L; stalled <- 0L; aborting <- false; throws <- 0; threads.Clear(); events.Clear(); seq <- 0
        log.Clear(); elapsed.Clear(); order <- 0; unhandled <- null; hash <- 14695981039346656037UL
        while back.CurrentCount > 0 do back.Wait(0) |> ignore

namespace System.Net

open System
open System.IO
open System.Collections.Generic
open VfSim

type HttpListenerException(code: int) =
    inherit System.ComponentModel.Win32Exception(code)

type SimClient() =
    member val Gone = false with get, set

/// what the client of a request sees
type Wire() =
    member val Status = 0 with get, set
    member val Body = new MemoryStream()
    member val HeadersSent = false with get, set
    member val Ended = 0 with get, set          // times a response was completed
    member val Broken = 0 with get, set         // aborted, or not all announced bytes sent
    member val EndedAt = 0L with get, set
    member val EndOrder = 0 with get, set
    member w.End() = w.EndedAt <- S.now; w.EndOrder <- S.tick ()

type HttpListenerResponse(w: Wire, client: SimClient) =
    let mutable status = 200
    let mutable length = -1L
    let mutable chunked = false
    let mutable closed = false
    let mutable sent = 0L
    let headers () =
        if closed then raise (ObjectDisposedException "HttpListenerResponse")
        if w.HeadersSent then raise (InvalidOperationException "Response already submitted.")
    let stream (r: HttpListenerResponse) =
        { new Stream() with
            member _.CanRead = false
            member _.CanSeek = false
            member _.CanWrite = true
            member _.Length = raise (NotSupportedException())
            member _.Position with get () = raise (NotSupportedException()) and set _ = raise (NotSupportedException())
            member _.Flush() = ()
            member _.Read(_: byte[], _: int, _: int) : int = raise (NotSupportedException())
            member _.Seek(_, _) = raise (NotSupportedException())
            member _.SetLength _ = raise (NotSupportedException())
            member _.Write(b: byte[], o: int, n: int) = r.Put(b, o, n)
            member s.Close() = r.Finish() }
    let mutable st : Stream = null
    member internal r.Put(b: byte[], o, n) =
        S.yield_ ()
        if closed then raise (ObjectDisposedException "HttpResponseStream")
        if length >= 0L && sent + int64 n > length then raise (ProtocolViolationException "more bytes than announced")
        if client.Gone then S.stat "fault.write-to-gone-client"; raise (HttpListenerException 32)
        if not w.HeadersSent then w.HeadersSent <- true; w.Status <- status
        w.Body.Write(b, o, n)
        sent <- sent + int64 n
    member internal r.Finish() =
        if not closed then
            S.yield_ ()
            if not closed then
                closed <- true
                w.End()
                if client.Gone then S.stat "fault.close-to-gone-client"; w.Broken <- w.Broken + 1; raise (HttpListenerException 32)
                if not w.HeadersSent then w.HeadersSent <- true; w.Status <- status
                if length >= 0L && sent < length then w.Broken <- w.Broken + 1
                else
                    w.Ended <- w.Ended + 1
                    S.ev (sprintf "response %d completed" w.Status)
    member r.StatusCode with get () = status and set (v: int) = (if closed then raise (ObjectDisposedException "response")); (if w.HeadersSent then raise (InvalidOperationException "headers sent")); status <- v
    member r.StatusDescription with get () = "" and set (_: string) = ()
    member r.SendChunked with get () = chunked and set (v: bool) = headers (); chunked <- v; (if v then length <- -1L)
    member val ContentType = "" with get, set
    member val KeepAlive = true with get, set
    member val ContentEncoding : System.Text.Encoding = null with get, set
    member r.ContentLength64 with get () = length and set (v: int64) = headers (); length <- v; chunked <- false
    member r.OutputStream : Stream = (if isNull st then st <- stream r); st
    member r.Close() = r.Finish()
    member r.Close(b: byte[], _: bool) = r.ContentLength64 <- int64 b.Length; r.Put(b, 0, b.Length); r.Finish()
    member r.Abort() = if not closed then (closed <- true; w.End(); w.Broken <- w.Broken + 1; S.ev "response aborted")
    interface IDisposable with
        member r.Dispose() = r.Finish()

type HttpListenerRequest(url: Uri, body: Stream, m: string) =
    member _.Url = url
    member _.RawUrl = url.PathAndQuery
    member _.HttpMethod = m
    member _.InputStream = body
    member _.HasEntityBody = body.Length > 0L
    member _.ContentEncoding = System.Text.Encoding.UTF8
    member _.ContentLength64 = body.Length

type HttpListenerContext(req: HttpListenerRequest, resp: HttpListenerResponse) =
    member _.Request = req
    member _.Response = resp

[<AllowNullLiteral>]
type SimAccept(cb: AsyncCallback, state: obj) =
    member val Ctx : HttpListenerContext = Unchecked.defaultof<_> with get, set
    member val Error : exn = null with get, set
    member val Complete = false with get, set
    member a.Fire() = a.Complete <- true; (if not (isNull cb) then cb.Invoke a)
    interface IAsyncResult with
        member _.AsyncState = state
        member _.AsyncWaitHandle = null
        member _.CompletedSynchronously = false
        member a.IsCompleted = a.Complete

[<AllowNullLiteral>]
type HttpListener() =
    static let mutable last : HttpListener = Unchecked.defaultof<_>
    let queue = Queue<HttpListenerContext>()
    let pending = Queue<SimAccept>()
    let mutable running = false
    let mutable closed = false
    do last <- Unchecked.defaultof<_>
    static member Last with get () = last and set (v: HttpListener) = last <- v
    member val Prefixes = List<string>()
    member val StoppedAt = -1L with get, set
    member val StopOrder = 0 with get, set
    member val StartedAt = -1L with get, set
    member l.IsListening = running
    static member IsSupported = true
    member l.Start() =
        S.yield_ ()
        if closed then raise (ObjectDisposedException "HttpListener")
        if not running then
            running <- true
            l.StartedAt <- S.now
            HttpListener.Last <- l
            S.ev "listener starts"
            S.yield_ ()
    member l.Stop() =
        S.yield_ ()
        if closed then raise (ObjectDisposedException "HttpListener")
        if running then
            running <- false
            l.StoppedAt <- S.now
            l.StopOrder <- S.tick ()
            S.ev "listener stops"
            queue.Clear()
            while pending.Count > 0 do
                let a = pending.Dequeue()
                a.Error <- HttpListenerException 995
                S.spawn "accept-aborted" a.Fire
        S.yield_ ()
    member l.Close() = (if running then l.Stop()); closed <- true
    member l.Abort() = l.Close()
    interface IDisposable with
        member l.Dispose() = l.Close()
    member private l.Pair() =
        if queue.Count > 0 && pending.Count > 0 then
            let a = pending.Dequeue()
            if S.faults && S.chance 3 then
                S.stat "fault.accept-fails"
                S.ev "accepting a connection fails"
                a.Error <- HttpListenerException 64
            else a.Ctx <- queue.Dequeue()
            S.spawn "accept" a.Fire
    member l.BeginGetContext(cb: AsyncCallback, state: obj) : IAsyncResult =
        S.yield_ ()
        if closed then raise (ObjectDisposedException "HttpListener")
        if not running then raise (InvalidOperationException "Please call the Start() method before calling this method.")
        let a = SimAccept(cb, state)
        pending.Enqueue a
        l.Pair()
        S.yield_ ()
        a :> IAsyncResult
    member l.EndGetContext(r: IAsyncResult) : HttpListenerContext =
        let a = r :?> SimAccept
        if not (isNull a.Error) then raise a.Error
        a.Ctx
    member l.GetContext() : HttpListenerContext =
        let a = l.BeginGetContext(null, null) :?> SimAccept
        S.switch (fun () -> a.Complete)
        l.EndGetContext a
    /// a client's request arrives; false: nobody listens
    member l.Arrive(c: HttpListenerContext) =
        if running then (queue.Enqueue c; l.Pair(); true) else false

namespace System.Timers

open System
open VfSim

type ElapsedEventArgs() =
    inherit EventArgs()
    member val SignalTime = DateTime.MinValue

type ElapsedEventHandler = delegate of obj * ElapsedEventArgs -> unit

/// System.Timers.Timer: the callback runs on a pool thread; a callback of an earlier Start is dropped
type Timer(ms: float) =
    let elapsed = Event<ElapsedEventHandler, ElapsedEventArgs>()
    let mutable cookie = 0
    let mutable enabled = false
    let mutable interval = ms
    new() = new Timer(100.0)
    member val AutoReset = true with get, set
    member t.Interval with get () = interval and set v = interval <- v; (if enabled then t.Arm())
    [<CLIEvent>]
    member t.Elapsed = elapsed.Publish
    member private t.Arm() =
        cookie <- cookie + 1
        let c = cookie
        S.at (S.now + int64 (Math.Ceiling interval)) (fun () ->
            S.spawn "timer" (fun () ->
                if c = cookie && enabled then
                    if t.AutoReset then t.Arm() else enabled <- false
                    S.ev "timer elapsed"
                    S.elapsed.Add(struct (S.now, S.tick ()))
                    try elapsed.Trigger(t, ElapsedEventArgs())
                    with AbortRun -> reraise () | _ -> S.stat "probe.timer-handler-raised"))     // the timer swallows exceptions of its handlers
    member t.Enabled with get () = enabled and set v = (if v then t.Start() else t.Stop())
    member t.Start() =
        S.yield_ ()
        if not enabled then
            enabled <- true
            t.Arm()
            S.yield_ ()
    member t.Stop() =
        S.yield_ ()
        enabled <- false
        cookie <- cookie + 1
        S.yield_ ()
    member t.Close() = t.Stop()
    member t.Dispose() = t.Stop()
    interface IDisposable with
        member t.Dispose() = t.Stop()

namespace CommandLine

open System

[<AttributeUsage(AttributeTargets.All)>]
type OptionAttribute(c: char, l: string) =
    inherit Attribute()
    member val HelpText = "" with get, set
    member val Default : obj = null with get, set
    member val Required = false with get, set
    member _.Long = l

type Error(s: string) =
    override _.ToString() = s

[<AbstractClass>]
type ParserResult<'T>() = class end

type Parsed<'T>(v: 'T) =
    inherit ParserResult<'T>()
    member _.Value = v

type NotParsed<'T>() =
    inherit ParserResult<'T>()
    member _.Errors : seq<Error> = Seq.empty

type Parser() =
    static member Default = Parser()
    member _.ParseArguments<'T>(argv: string[]) : ParserResult<'T> =
        let fs = Reflection.FSharpType.GetRecordFields(typeof<'T>)
        let vals =
            fs |> Array.map (fun f ->
                let a = f.GetCustomAttributes(typeof<OptionAttribute>, true).[0] :?> OptionAttribute
                match Array.tryFindIndex ((=) ("--" + a.Long)) argv with
                | Some i -> Convert.ChangeType(argv.[i + 1], f.PropertyType)
                | None -> a.Default)
        Parsed<'T>(Reflection.FSharpValue.MakeRecord(typeof<'T>, vals) :?> 'T)

namespace Newtonsoft.Json.Converters
type StringEnumConverter() = class end
type DiscriminatedUnionConverter() = class end

namespace Newtonsoft.Json

open System
open System.IO

type JsonSerializerSettings() =
    member val Converters = System.Collections.Generic.List<obj>()

type JsonSerializer() =
    static member Create(_: JsonSerializerSettings) = JsonSerializer()
    member _.Deserialize(r: TextReader, t: Type) : obj =
        let s = r.ReadToEnd()
        if not (s.StartsWith "{") then raise (InvalidDataException "Unexpected character")
        Activator.CreateInstance(t, s)
    member _.Serialize(w: TextWriter, o: obj) =
        let s = string o
        if s.Contains "unserializable" then
            w.Write(s.Substring(0, s.Length / 2)); w.Flush()
            raise (InvalidDataException "Self referencing loop")
        w.Write s

namespace Service
module Dto =
    type Input(s: string) =
        member _.Text = s
    type Output(s: string) =
        override _.ToString() = s

type IAsn1Service =
    abstract BuildAst: Dto.Input -> Dto.Output
    abstract Version: string

namespace Service.Implementation
open Service
open VfSim

type Asn1Service() =
    interface IAsn1Service with
        member _.BuildAst(i: Dto.Input) =
            S.yield_ ()
            S.yield_ ()
            if i.Text.Contains "fail" then raise (System.Exception "service failure")
            Dto.Output("ast-of-" + i.Text)
        member _.Version = "TODO"

namespace Daemon

open System
open VfSim

/// the scheduling half of Async; the rest is FSharp.Core's
[<AutoOpen>]
module AsyncShim =
    type Async =
        static member FromBeginEnd(b: AsyncCallback * obj -> IAsyncResult, e: IAsyncResult -> 'T) = FSharp.Control.Async.FromBeginEnd(b, e)
        static member Sleep(ms: int) = async { S.yield_ (); let t = S.now + int64 ms in S.at t ignore; S.switch (fun () -> S.now >= t) }
        static member Start(c: Async<unit>, ?ct: System.Threading.CancellationToken) =
            S.stat "probe.async-start"
            S.spawn "handler" (fun () -> FSharp.Control.Async.StartWithContinuations(c, ignore, (fun e -> raise e), ignore))
        static member StartImmediate(c: Async<unit>) = FSharp.Control.Async.StartWithContinuations(c, ignore, (fun e -> raise e), ignore)
        static member Catch c = FSharp.Control.Async.Catch c
        static member Ignore c = FSharp.Control.Async.Ignore c
        static member RunSynchronously(c: Async<'T>) : 'T =
            let mutable r = Unchecked.defaultof<'T>
            let mutable e : exn = null
            let mutable fin = false
            let cell = ref 0
            let res = ref Unchecked.defaultof<'T>
            let err : exn ref = ref null
            FSharp.Control.Async.StartWithContinuations(c, (fun x -> res.Value <- x; cell.Value <- 1), (fun x -> err.Value <- x; cell.Value <- 2), (fun x -> err.Value <- x; cell.Value <- 2))
            S.switch (fun () -> cell.Value <> 0)
            if cell.Value = 2 then raise err.Value
            res.Value
