/// Minimal offline stand-in for the NuGet package FsToolkit.ErrorHandling: only what
/// FrontEndAst uses (the `result` computation expression and List.traverseResultM).
namespace FsToolkit.ErrorHandling

type ResultBuilder() =
    member _.Return(x: 'a) : Result<'a, 'e> = Ok x
    member _.ReturnFrom(r: Result<'a, 'e>) : Result<'a, 'e> = r
    member _.Bind(r: Result<'a, 'e>, f: 'a -> Result<'b, 'e>) : Result<'b, 'e> =
        match r with
        | Ok x -> f x
        | Error e -> Error e
    member _.Zero() : Result<unit, 'e> = Ok ()
    member _.Delay(f: unit -> Result<'a, 'e>) = f
    member _.Run(f: unit -> Result<'a, 'e>) : Result<'a, 'e> = f ()
    member this.Combine(r: Result<unit, 'e>, f: unit -> Result<'b, 'e>) : Result<'b, 'e> =
        match r with
        | Ok () -> f ()
        | Error e -> Error e

[<AutoOpen>]
module ResultCE =
    let result = ResultBuilder()

[<RequireQualifiedAccess>]
module List =
    let traverseResultM (f: 'a -> Result<'b, 'e>) (xs: 'a list) : Result<'b list, 'e> =
        let rec loop acc rest =
            match rest with
            | [] -> Ok(List.rev acc)
            | x :: tl ->
                match f x with
                | Ok y -> loop (y :: acc) tl
                | Error e -> Error e
        loop [] xs
