/// Minimal offline stand-in for the NuGet package Argu: the part of its API asn1scc/Program.fs uses,
/// with Argu's observable behaviour for the command lines the checks issue.
namespace Argu

open System
open Microsoft.FSharp.Reflection
open Microsoft.FSharp.Quotations
open Microsoft.FSharp.Quotations.Patterns

type IArgParserTemplate =
    abstract Usage : string

[<AttributeUsage(AttributeTargets.All)>]
type UniqueAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.All)>]
type ExactlyOnceAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.All)>]
type LastAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.All)>]
type MainCommandAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.All, AllowMultiple = true)>]
type AltCommandLineAttribute(name: string) =
    inherit Attribute()
    member _.Name = name

type ArguParseException(msg: string) = inherit Exception(msg)

module internal Impl =
    let rec caseOf (e: Expr) : UnionCaseInfo =
        match e with
        | Lambda(_, b) -> caseOf b
        | Let(_, _, b) -> caseOf b
        | NewUnionCase(u, _) -> u
        | _ -> failwithf "Argu shim: unsupported quotation %A" e
    let isA<'a> (u: UnionCaseInfo) = u.GetCustomAttributes(typeof<'a>).Length > 0
    let names (u: UnionCaseInfo) =
        let alt = u.GetCustomAttributes(typeof<AltCommandLineAttribute>) |> Seq.map (fun a -> (a :?> AltCommandLineAttribute).Name) |> Seq.toList
        ("--" + u.Name.ToLowerInvariant().Replace('_', '-')) :: alt
    let isOption (t: Type) = t.IsGenericType && t.GetGenericTypeDefinition() = typedefof<option<_>>
    let rec convert (t: Type) (nm: string) (s: string) : obj =
        let bad () = raise (ArguParseException(sprintf "ERROR: parameter '%s' must be followed by %s, but was '%s'." nm t.Name s))
        if t = typeof<string> then box s
        elif t = typeof<int> then (match Int32.TryParse s with | true, v -> box v | _ -> bad ())
        elif t = typeof<uint32> then (match UInt32.TryParse s with | true, v -> box v | _ -> bad ())
        elif FSharpType.IsUnion t then
            match FSharpType.GetUnionCases t |> Seq.tryFind (fun u -> u.Name.ToLowerInvariant() = s.ToLowerInvariant()) with
            | Some u -> FSharpValue.MakeUnion(u, [||])
            | None -> bad ()
        else bad ()

type ParseResults<'T when 'T : equality>(items: (UnionCaseInfo * 'T) list) =
    let find (u: UnionCaseInfo) = items |> List.filter (fun (c, _) -> c.Tag = u.Tag) |> List.map snd
    let payload (v: 'T) : obj = (snd (FSharpValue.GetUnionFields(v, typeof<'T>, true))).[0]
    member _.GetAllResults() : 'T list = items |> List.map snd
    member _.Contains([<ReflectedDefinition>] e: Expr<'T>) = not (List.isEmpty (find (Impl.caseOf e)))
    member _.Contains(e: Expr<'F -> 'T>) = not (List.isEmpty (find (Impl.caseOf e)))
    member _.TryGetResult(e: Expr<'F -> 'T>) : 'F option =
        match List.tryLast (find (Impl.caseOf e)) with
        | Some v -> Some(unbox<'F> (payload v))
        | None -> None
    member this.GetResult(e: Expr<'F -> 'T>, ?defaultValue: 'F) : 'F =
        match this.TryGetResult e with
        | Some v -> v
        | None ->
            match defaultValue with
            | Some d -> d
            | None -> raise (ArguParseException(sprintf "ERROR: missing argument '%s'." (Impl.caseOf e).Name))

type ArgumentParser<'T when 'T : equality>(programName: string) =
    member _.Parse(argv: string[]) : ParseResults<'T> =
        let cases = FSharpType.GetUnionCases(typeof<'T>, true) |> Seq.toList
        let main = cases |> List.find (fun u -> Impl.isA<MainCommandAttribute> u)
        let byName = cases |> List.collect (fun u -> if u.Tag = main.Tag then [] else Impl.names u |> List.map (fun n -> n, u)) |> Map.ofList
        let mk (u: UnionCaseInfo) (args: obj[]) = u, unbox<'T> (FSharpValue.MakeUnion(u, args, true))
        let fail msg = raise (ArguParseException("ERROR: " + msg))
        let rec loop acc files (rest: string list) =
            match rest with
            | [] -> List.rev acc, List.rev files
            | a :: tl when byName.ContainsKey a ->
                if not (List.isEmpty files) then fail (sprintf "unexpected argument '%s'." a)
                let u = byName.[a]
                if Impl.isA<UniqueAttribute> u && acc |> List.exists (fun (c: UnionCaseInfo, _) -> c.Tag = u.Tag) then
                    fail (sprintf "argument '%s' has been specified more than once." a)
                match u.GetFields() |> Array.toList with
                | [] -> loop (mk u [||] :: acc) files tl
                | [ f ] when Impl.isOption f.PropertyType ->
                    let inner = f.PropertyType.GetGenericArguments().[0]
                    let optCases = FSharpType.GetUnionCases f.PropertyType
                    let none = FSharpValue.MakeUnion(optCases |> Array.find (fun c -> c.Name = "None"), [||])
                    let some v = FSharpValue.MakeUnion(optCases |> Array.find (fun c -> c.Name = "Some"), [| v |])
                    let parsed =
                        match tl with
                        | v :: _ when not (byName.ContainsKey v) && not (v.StartsWith "-") ->
                            (try Some(Impl.convert inner a v) with :? ArguParseException -> None)
                        | _ -> None
                    match parsed with
                    | Some v -> loop (mk u [| some v |] :: acc) files (List.tail tl)
                    | None -> loop (mk u [| none |] :: acc) files tl
                | [ f ] ->
                    match tl with
                    | [] -> fail (sprintf "argument '%s' must be followed by <%s>." a f.Name)
                    | v :: tl2 -> loop (mk u [| Impl.convert f.PropertyType a v |] :: acc) files tl2
                | _ -> fail (sprintf "argument '%s': unsupported arity" a)
            | a :: _ when a = "--help" -> fail (sprintf "USAGE: %s ..." programName)
            | a :: _ when a.StartsWith "-" -> fail (sprintf "unrecognized argument: '%s'." a)
            | a :: tl -> loop acc (a :: files) tl
        let acc, files = loop [] [] (Array.toList argv)
        if List.isEmpty files then fail "missing argument '<files>...'."
        ParseResults<'T>(acc @ [ mk main [| box files |] ])

type ArgumentParser =
    static member Create<'T when 'T : equality>(?programName: string) : ArgumentParser<'T> =
        ArgumentParser<'T>(defaultArg programName "prog")
