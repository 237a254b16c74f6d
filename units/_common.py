from vlib import Fn, Ty, Unit
# method renames for the string prelude
STR = [("find", "char", "vx_find_char"), ("find", "str", "vx_find_str"), ("rfind", "char", "vx_rfind_char"), ("rfind", "str", "vx_rfind_str"), ("starts_with", "char", "vx_starts_with_char"),
       ("contains", "char", "vx_contains_char"), ("contains", "str", "vx_contains_str"), ("starts_with", "str", "vx_starts_with"),
       ("ends_with", "char", "vx_ends_with_char"), ("ends_with", "str", "vx_ends_with")]
STRLEN = [("len", "0", "vx_len"), ("is_empty", "0", "vx_is_empty")]


def lit(*ss):
    """a lemma giving the bytes of string literals"""
    o = []
    ens, body = [], []
    for s in ss:
        q = '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
        bs = ", ".join(f"{x}u8" for x in s.encode())
        sq = f"seq![{bs}]" if s else "Seq::<u8>::empty()"
        ens.append(f"encode_utf8({q}@) == {sq}")
        body.append(f"reveal_strlit({q}); is_ascii_chars_encode_utf8({q}@); assert(encode_utf8({q}@) =~= {sq});")
    return "proof fn lits() ensures " + ", ".join(ens) + " { " + " ".join(body) + " }\n"


def forinv(k, seq=None, inv="", extra=""):
    """invariant of the k-th desugared `for`: vx_itK walks exactly the sequence it had at the start"""
    i = f"vx_it{k}"
    s = f"invariant {i}.wf(), {i}.s() == {seq or 'vx_s%d' % k},"
    if inv:
        s += "\n    " + inv.strip().rstrip(",") + ","
    s += f"\ndecreases {i}.s().len() - {i}.i()" + extra
    return s
