open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () = let n = 400 in
  let r = DH.derive_key ~diversification:"d" "secret" n in
  let w = String.concat "" (List.init 13 (fun i -> hash_string (Hash.sha256 ()) ("d" ^ "secret" ^ string_of_int (i + 1)))) in
  check "derive" (r = String.sub w 0 n)