"""A copy of boost/multiprecision/gmp.hpp for symbolic builds, in which the
mixed rational/integer shortcuts that work on GMP's fields directly go through
rational operations when an operand is symbolic."""
import re
import sys

SRC = "/usr/include/boost/multiprecision/gmp.hpp"


def patch(t):
    n = 0

    def sub(pat, rep, count=1, flags=re.S):
        nonlocal t, n
        t2, k = re.subn(pat, rep, t, count=count, flags=flags)
        if k == 0:
            raise SystemExit("patch_boost: no match for " + pat)
        t, n = t2, n + k

    # mixed operations
    for op in ("add", "subtract", "multiply"):
        for b in ("gmp_int const&", "unsigned long", "long"):
            sub(r"(inline void eval_%s\(gmp_rational& result, gmp_rational const& a, %s b\)\n\{\n)" % (op, re.escape(b)),
                r"\1   if (symq_is(result.data()) || symq_is(a.data())) { gmp_rational bq_(b); eval_%s(result, a, bq_); return; }\n" % op)
    # comparison results stay undecided until they are looked at
    i = t.index("struct gmp_rational\n")
    j = t.index("inline bool eval_is_zero(const gmp_rational& val)")
    body = t[i:j]
    body2 = re.sub(r"\bint compare\(", "symq_cmp_t compare(", body)
    assert body2 != body
    t = t[:i] + body2 + t[j:]
    # assignment from components
    for m in ("unsigned long v1, unsigned long v2", "long v1, long v2", "gmp_int const& v1, gmp_int const& v2"):
        sub(r"(inline void assign_components\(gmp_rational& result, %s\)\n\{\n)" % m, r"\1   symq_own(result.data());\n")
    for m in ("const T& a, const U& b", "const gmp_int& a, const U& b", "const T& a, const gmp_int& b"):
        sub(r"(void assign_components\(gmp_rational& result, %s\)\n\{\n)" % m, r"\1   symq_own(result.data());\n")
    sub(r"(inline std::size_t hash_value\(const gmp_rational& val\)\n\{\n)", r"\1   if (symq_is(val.data())) return symq_hash(val.data());\n")
    # conversions to numbers fix the value
    sub(r"(eval_convert_to\(R\* result, const gmp_rational& backend\)\n\s*\{)", r"\1 symq_pin(backend.data());", count=2)
    return t


if __name__ == "__main__":
    out = patch(open(SRC).read())
    open(sys.argv[1], "w").write(out)
