open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let c = Cipher.arcfour "key" Cipher.Encrypt and d = String.init 4000 (fun i -> Char.chr (i * 13 land 255)) in
  let all = transform_string (Cipher.arcfour "key" Cipher.Encrypt) d in
  let out = Buffer.create 4000 in
  (try
    let pos = ref 0 in
    while !pos < 4000 do
      let n = min (if !pos = 0 then 256 else 260) (4000 - !pos) in
      c#put_substring (Bytes.of_string d) !pos n; pos := !pos + n;
      for _ = 1 to 10 do Buffer.add_char out c#get_char done
    done;
    Buffer.add_string out c#get_string
  with _ -> fail "exception");
  check "stream" (Buffer.contents out = all)