open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let t = transform_then_hash (Base64.encode_compact_pad ()) (Hash.sha1 ()) in ignore t;
  let d = Zlib.compress () in
  let mk () = Base64.decode () in
  let t = transform_then_hash (mk ()) (Hash.sha1 ()) in
  t#put_string "YQ==";
  let tag = t#finish_and_get_tag in
  let out = t#get_string in
  check "output" (out = "a"); check "tag" (tag = hash_string (Hash.sha1 ()) "a")