(* Dumps the Parsetree of an .ml file as JSON (run with: ocaml -I +compiler-libs ocamlcommon.cma dump.ml FILE) *)
open Parsetree
open Asttypes
let b = Buffer.create 100000
let str s =
  Buffer.add_char b '"';
  String.iter (fun c -> match c with
    | '"' -> Buffer.add_string b "\\\"" | '\\' -> Buffer.add_string b "\\\\"
    | c when Char.code c < 32 || Char.code c > 126 -> Buffer.add_string b (Printf.sprintf "\\u%04x" (Char.code c))
    | c -> Buffer.add_char b c) s;
  Buffer.add_char b '"'
let list f l = Buffer.add_char b '['; List.iteri (fun i x -> if i > 0 then Buffer.add_char b ','; f x) l; Buffer.add_char b ']'
let node name fs = Buffer.add_char b '['; str name; List.iter (fun f -> Buffer.add_char b ','; f ()) fs; Buffer.add_char b ']'
let null () = Buffer.add_string b "null"
let opt f = function None -> null | Some x -> (fun () -> f x)
let s x () = str x
let i (x:int) () = Buffer.add_string b (string_of_int x)
let l f x () = list f x
let bool x () = Buffer.add_string b (if x then "true" else "false")
let rec lid = function Longident.Lident s -> s | Longident.Ldot (p, s) -> lid p ^ "." ^ s | Longident.Lapply (a, c) -> lid a ^ "(" ^ lid c ^ ")"
let label = function Nolabel -> s "" | Labelled x -> s ("~" ^ x) | Optional x -> s ("?" ^ x)
let line (loc : Location.t) = i loc.loc_start.pos_lnum
exception Unsup of string
let const c = match c with
  | Pconst_integer (v, None) -> node "int" [s v]
  | Pconst_integer (v, Some c) -> node "int" [s v; s (String.make 1 c)]
  | Pconst_char c -> node "char" [i (Char.code c)]
  | Pconst_string (v, _, _) -> node "string" [s v]
  | Pconst_float (v, _) -> node "float" [s v]
let rec expr e =
  let n = node in
  let ln = line e.pexp_loc in
  match e.pexp_desc with
  | Pexp_ident id -> n "id" [ln; s (lid id.txt)]
  | Pexp_constant c -> n "const" [ln; (fun () -> const c)]
  | Pexp_let (r, vbs, body) -> n "let" [ln; bool (r = Recursive); l vb vbs; (fun () -> expr body)]
  | Pexp_function cs -> n "function" [ln; l case cs]
  | Pexp_fun (lab, d, p, body) -> n "fun" [ln; label lab; opt expr d; (fun () -> pat p); (fun () -> expr body)]
  | Pexp_apply (f, args) -> n "app" [ln; (fun () -> expr f); l (fun (lb, a) -> Buffer.add_char b '['; label lb (); Buffer.add_char b ','; expr a; Buffer.add_char b ']') args]
  | Pexp_match (e, cs) -> n "match" [ln; (fun () -> expr e); l case cs]
  | Pexp_try (e, cs) -> n "try" [ln; (fun () -> expr e); l case cs]
  | Pexp_tuple es -> n "tuple" [ln; l expr es]
  | Pexp_construct (id, a) -> n "construct" [ln; s (lid id.txt); opt expr a]
  | Pexp_record (fs, w) -> n "record" [ln; l (fun (id, e) -> Buffer.add_char b '['; str (lid id.Location.txt); Buffer.add_char b ','; expr e; Buffer.add_char b ']') fs; opt expr w]
  | Pexp_field (e, id) -> n "field" [ln; (fun () -> expr e); s (lid id.txt)]
  | Pexp_setfield (e, id, v) -> n "setfield" [ln; (fun () -> expr e); s (lid id.txt); (fun () -> expr v)]
  | Pexp_array es -> n "array" [ln; l expr es]
  | Pexp_ifthenelse (c, t, e) -> n "if" [ln; (fun () -> expr c); (fun () -> expr t); opt expr e]
  | Pexp_sequence (a, c) -> n "seq" [ln; (fun () -> expr a); (fun () -> expr c)]
  | Pexp_while (c, d) -> n "while" [ln; (fun () -> expr c); (fun () -> expr d)]
  | Pexp_for (p, lo, hi, d, body) -> n "for" [ln; (fun () -> pat p); (fun () -> expr lo); (fun () -> expr hi); bool (d = Upto); (fun () -> expr body)]
  | Pexp_constraint (e, _) -> expr e
  | Pexp_coerce (e, _, _) -> expr e
  | Pexp_send (e, m) -> n "send" [ln; (fun () -> expr e); s m.txt]
  | Pexp_new c -> n "new" [ln; s (lid c.txt)]
  | Pexp_setinstvar (v, e) -> n "setinst" [ln; s v.txt; (fun () -> expr e)]
  | Pexp_override fs -> n "override" [ln; l (fun (v, e) -> Buffer.add_char b '['; str v.Location.txt; Buffer.add_char b ','; expr e; Buffer.add_char b ']') fs]
  | Pexp_assert e -> n "assert" [ln; (fun () -> expr e)]
  | Pexp_lazy e -> n "lazy" [ln; (fun () -> expr e)]
  | Pexp_object cs -> n "object" [ln; (fun () -> cstruct cs)]
  | Pexp_newtype (_, e) -> expr e
  | Pexp_poly (e, _) -> expr e
  | Pexp_open (o, e) -> n "open" [ln; (fun () -> modexpr o.popen_expr); (fun () -> expr e)]
  | Pexp_letmodule (nm, m, e) -> n "letmodule" [ln; opt str nm.txt; (fun () -> modexpr m); (fun () -> expr e)]
  | Pexp_letexception (c, e) -> n "letexn" [ln; s c.pext_name.txt; (fun () -> expr e)]
  | Pexp_unreachable -> n "unreachable" [ln]
  | _ -> n "unsupported" [ln; s "expression"]
and vb v = Buffer.add_char b '['; pat v.pvb_pat; Buffer.add_char b ','; expr v.pvb_expr; Buffer.add_char b ']'
and case c = Buffer.add_char b '['; pat c.pc_lhs; Buffer.add_char b ','; opt expr c.pc_guard (); Buffer.add_char b ','; expr c.pc_rhs; Buffer.add_char b ']'
and pat p =
  let n = node in
  match p.ppat_desc with
  | Ppat_any -> n "any" []
  | Ppat_var v -> n "var" [s v.txt]
  | Ppat_alias (p, v) -> n "alias" [(fun () -> pat p); s v.txt]
  | Ppat_constant c -> n "const" [(fun () -> const c)]
  | Ppat_interval (a, c) -> n "interval" [(fun () -> const a); (fun () -> const c)]
  | Ppat_tuple ps -> n "tuple" [l pat ps]
  | Ppat_construct (id, a) -> n "construct" [s (lid id.txt); opt pat (match a with None -> None | Some (_, p) -> Some p)]
  | Ppat_record (fs, _) -> n "record" [l (fun (id, p) -> Buffer.add_char b '['; str (lid id.Location.txt); Buffer.add_char b ','; pat p; Buffer.add_char b ']') fs]
  | Ppat_array ps -> n "array" [l pat ps]
  | Ppat_or (p, q) -> n "or" [(fun () -> pat p); (fun () -> pat q)]
  | Ppat_constraint (p, _) -> pat p
  | Ppat_exception p -> n "exception" [(fun () -> pat p)]
  | Ppat_open (_, p) -> pat p
  | _ -> n "unsupported" []
and cexpr c =
  let n = node in
  match c.pcl_desc with
  | Pcl_constr (id, _) -> n "cid" [s (lid id.txt)]
  | Pcl_structure cs -> cstruct cs
  | Pcl_fun (lab, d, p, c) -> n "cfun" [label lab; opt expr d; (fun () -> pat p); (fun () -> cexpr c)]
  | Pcl_apply (c, args) -> n "capp" [(fun () -> cexpr c); l (fun (lb, a) -> Buffer.add_char b '['; label lb (); Buffer.add_char b ','; expr a; Buffer.add_char b ']') args]
  | Pcl_let (r, vbs, c) -> n "clet" [bool (r = Recursive); l vb vbs; (fun () -> cexpr c)]
  | Pcl_constraint (c, _) -> cexpr c
  | Pcl_open (_, c) -> cexpr c
  | _ -> n "unsupported" []
and cstruct cs = node "cstruct" [(fun () -> pat cs.pcstr_self); l cfield cs.pcstr_fields]
and cfield f =
  let n = node in
  match f.pcf_desc with
  | Pcf_inherit (_, c, a) -> n "inherit" [(fun () -> cexpr c); opt (fun (x : string Location.loc) -> str x.txt) a]
  | Pcf_val (v, m, Cfk_concrete (_, e)) -> n "val" [s v.txt; bool (m = Mutable); (fun () -> expr e)]
  | Pcf_method (v, p, Cfk_concrete (_, e)) -> n "method" [s v.txt; bool (p = Private); (fun () -> expr e); line f.pcf_loc]
  | Pcf_initializer e -> n "init" [(fun () -> expr e)]
  | Pcf_constraint _ | Pcf_attribute _ -> n "skip" []
  | _ -> n "virtual" []
and modexpr m =
  let n = node in
  match m.pmod_desc with
  | Pmod_ident id -> n "mid" [s (lid id.txt)]
  | Pmod_structure st -> n "mstruct" [l item st]
  | Pmod_functor (Named (nm, _), m) -> n "mfunctor" [opt str nm.txt; (fun () -> modexpr m)]
  | Pmod_apply (f, a) -> n "mapply" [(fun () -> modexpr f); (fun () -> modexpr a)]
  | Pmod_constraint (m, _) -> modexpr m
  | _ -> n "unsupported" []
and item it =
  let n = node in
  let ln = line it.pstr_loc in
  match it.pstr_desc with
  | Pstr_value (r, vbs) -> n "value" [ln; bool (r = Recursive); l vb vbs]
  | Pstr_primitive v -> n "external" [ln; s v.pval_name.txt; l str v.pval_prim]
  | Pstr_eval (e, _) -> n "eval" [ln; (fun () -> expr e)]
  | Pstr_exception e -> n "exception" [ln; s e.ptyexn_constructor.pext_name.txt]
  | Pstr_module m -> n "module" [ln; opt str m.pmb_name.txt; (fun () -> modexpr m.pmb_expr)]
  | Pstr_class cs -> n "class" [ln; l (fun c -> Buffer.add_char b '['; str c.pci_name.txt; Buffer.add_char b ','; cexpr c.pci_expr; Buffer.add_char b ']') cs]
  | Pstr_open o -> n "openm" [ln; (fun () -> modexpr o.popen_expr)]
  | Pstr_include o -> n "include" [ln; (fun () -> modexpr o.pincl_mod)]
  | Pstr_type (_, ts) -> n "type" [ln; l (fun t -> str t.ptype_name.txt) ts]
  | _ -> n "skip" [ln]
let () =
  let f = Sys.argv.(1) in
  let ic = open_in_bin f in
  let lb = Lexing.from_channel ic in
  Location.init lb f;
  list item (Parse.implementation lb);
  print_string (Buffer.contents b)
