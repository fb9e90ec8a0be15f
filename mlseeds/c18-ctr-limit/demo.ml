open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let toy = object method blocksize = 8 method transform (s: bytes) so d d_o = Bytes.blit s so d d_o 8 method wipe = () end in
  let c = new Block.ctr ~inc:2 toy in
  let b = Bytes.make 8 '\000' in
  let seen = Hashtbl.create 70000 in
  let r = try for _ = 1 to 70000 do
      c#transform (Bytes.make 8 '\000') 0 b 0;
      let k = Bytes.to_string b in
      if Hashtbl.mem seen k then fail "keystream block reused"; Hashtbl.add seen k ()
    done; false with Error Message_too_long -> true in
  check "limit" r