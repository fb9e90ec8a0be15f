open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let (rd, wr) = Unix.pipe () in
  match Unix.fork () with
  | 0 -> Unix.close rd; ignore (Unix.write wr (Bytes.make 100 'a') 0 100); Unix.sleepf 0.3; ignore (Unix.write wr (Bytes.make 300 'b') 0 300); Unix._exit 0
  | pid -> Unix.close wr; let ic = Unix.in_channel_of_descr rd in
      let h = (try hash_channel (Hash.sha256 ()) ~len:300 ic with End_of_file -> "") in
      ignore (Unix.waitpid [] pid);
      check "hash" (h = hash_string (Hash.sha256 ()) (String.make 100 'a' ^ String.make 200 'b'))