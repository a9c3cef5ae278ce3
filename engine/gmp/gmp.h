// Overlay of <gmp.h> for symbolic builds: rational operations go through the
// runtime, which passes ordinary values on to GMP.
#ifndef VERIF_GMP_OVERLAY
#define VERIF_GMP_OVERLAY
#include_next <gmp.h>
#ifdef __cplusplus
#undef mpq_abs
#undef mpq_add
#undef mpq_canonicalize
#undef mpq_clear
#undef mpq_clears
#undef mpq_cmp
#undef mpq_cmp_z
#undef mpq_div
#undef mpq_div_2exp
#undef mpq_equal
#undef mpq_get_num
#undef mpq_get_den
#undef mpq_get_d
#undef mpq_get_str
#undef mpq_init
#undef mpq_inits
#undef mpq_inv
#undef mpq_mul
#undef mpq_mul_2exp
#undef mpq_neg
#undef mpq_set
#undef mpq_set_d
#undef mpq_set_den
#undef mpq_set_f
#undef mpq_set_num
#undef mpq_set_si
#undef mpq_set_str
#undef mpq_set_ui
#undef mpq_set_z
#undef mpq_sub
#undef mpq_swap
#undef mpq_sgn
#undef mpq_cmp_ui
#undef mpq_cmp_si
#undef mpq_numref
#undef mpq_denref
extern "C" {
int symq_is(mpq_srcptr);
void symq_own(mpq_ptr);
void symq_pin(mpq_srcptr);
unsigned long symq_hash(mpq_srcptr);
void symq_abs(mpq_ptr, mpq_srcptr);
void symq_neg(mpq_ptr, mpq_srcptr);
void symq_inv(mpq_ptr, mpq_srcptr);
void symq_add(mpq_ptr, mpq_srcptr, mpq_srcptr);
void symq_sub(mpq_ptr, mpq_srcptr, mpq_srcptr);
void symq_mul(mpq_ptr, mpq_srcptr, mpq_srcptr);
void symq_div(mpq_ptr, mpq_srcptr, mpq_srcptr);
void symq_canonicalize(mpq_ptr);
void symq_clear(mpq_ptr);
void symq_set(mpq_ptr, mpq_srcptr);
void symq_set_d(mpq_ptr, double);
void symq_set_si(mpq_ptr, long, unsigned long);
void symq_set_ui(mpq_ptr, unsigned long, unsigned long);
void symq_set_z(mpq_ptr, mpz_srcptr);
int symq_set_str(mpq_ptr, const char*, int);
void symq_set_num(mpq_ptr, mpz_srcptr);
void symq_set_den(mpq_ptr, mpz_srcptr);
void symq_get_num(mpz_ptr, mpq_srcptr);
void symq_get_den(mpz_ptr, mpq_srcptr);
double symq_get_d(mpq_srcptr);
char* symq_get_str(char*, int, mpq_srcptr);
void symq_mul_2exp(mpq_ptr, mpq_srcptr, mp_bitcnt_t);
void symq_div_2exp(mpq_ptr, mpq_srcptr, mp_bitcnt_t);
int symq_equal(mpq_srcptr, mpq_srcptr);
void* symq_diff(mpq_srcptr, mpq_srcptr);
void* symq_diff_si(mpq_srcptr, long, unsigned long);
void* symq_diff_ui(mpq_srcptr, unsigned long, unsigned long);
void* symq_diff_z(mpq_srcptr, mpz_srcptr);
void* symq_ref(void*);
void symq_unref(void*);
int symq_iszero(void*);
int symq_signof(void*);
}
// the result of a three way comparison, decided only as far as it is looked at
class symq_cmp_t
{
    void* d;

public:
    explicit symq_cmp_t(void* x) : d(x) {}
    symq_cmp_t(const symq_cmp_t& o) : d(symq_ref(o.d)) {}
    symq_cmp_t& operator=(const symq_cmp_t& o)
    {
        void* n = symq_ref(o.d);
        symq_unref(d);
        d = n;
        return *this;
    }
    ~symq_cmp_t() { symq_unref(d); }
    operator int() const { return symq_signof(d); }
    friend bool operator==(const symq_cmp_t& a, int b) { return b == 0 ? symq_iszero(a.d) != 0 : symq_signof(a.d) == b; }
    friend bool operator!=(const symq_cmp_t& a, int b) { return !(a == b); }
};
static inline mpz_ptr symq_numref(mpq_srcptr q) { symq_pin(q); return const_cast<mpz_ptr>(&q->_mp_num); }
static inline mpz_ptr symq_denref(mpq_srcptr q) { symq_pin(q); return const_cast<mpz_ptr>(&q->_mp_den); }
#define mpq_abs symq_abs
#define mpq_add symq_add
#define mpq_canonicalize symq_canonicalize
#define mpq_clear symq_clear
#define mpq_cmp(a, b) symq_cmp_t(symq_diff(a, b))
#define mpq_cmp_z(a, b) symq_cmp_t(symq_diff_z(a, b))
#define mpq_cmp_si(a, n, d) symq_cmp_t(symq_diff_si(a, n, d))
#define mpq_cmp_ui(a, n, d) symq_cmp_t(symq_diff_ui(a, n, d))
#define mpq_sgn(a) symq_cmp_t(symq_diff_ui(a, 0, 1))
#define mpq_div symq_div
#define mpq_div_2exp symq_div_2exp
#define mpq_equal symq_equal
#define mpq_get_num symq_get_num
#define mpq_get_den symq_get_den
#define mpq_get_d symq_get_d
#define mpq_get_str symq_get_str
#define mpq_init __gmpq_init
#define mpq_inv symq_inv
#define mpq_mul symq_mul
#define mpq_mul_2exp symq_mul_2exp
#define mpq_neg symq_neg
#define mpq_set symq_set
#define mpq_set_d symq_set_d
#define mpq_set_den symq_set_den
#define mpq_set_num symq_set_num
#define mpq_set_si symq_set_si
#define mpq_set_str symq_set_str
#define mpq_set_ui symq_set_ui
#define mpq_set_z symq_set_z
#define mpq_sub symq_sub
#define mpq_swap __gmpq_swap
#define mpq_numref(Q) symq_numref(Q)
#define mpq_denref(Q) symq_denref(Q)
#endif
#endif
