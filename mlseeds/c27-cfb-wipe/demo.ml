open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let bufs = ref [] in
  let toy = object method blocksize = 8
    method transform (s: bytes) so d d_o = bufs := d :: s :: !bufs; for i = 0 to 7 do Bytes.set d (d_o + i) (Char.chr (Char.code (Bytes.get s (so + i)) lxor 0x5a)) done
    method wipe = () end in
  let c = new Block.cfb_decrypt ~iv:"abcdefgh" 3 toy in
  let b = Bytes.make 8 'x' in
  c#transform b 0 b 0; c#wipe;
  List.iter (fun x -> if x != b then check "wiped" (Bytes.to_string x = String.make (Bytes.length x) '\000')) !bufs