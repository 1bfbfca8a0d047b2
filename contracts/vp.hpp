// Contract language of the checker: C++ functions that state, over the real API of /repo, what is required
// (vp_assume), what is guaranteed (vp_assert), and which ghost functions (VP_SPEC) and ghost observations
// (vp_pred / vp_fn / vp_cell) the loop invariants may mention.  The same text is compiled twice: to LLVM IR for
// the deductive verifier and natively for the replay of counterexamples.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// symbolic inputs; [lo,hi] is the precondition on the input
long vp_input(char const * name, long lo, long hi);
// an arbitrary witness for a universally quantified variable of the contract
long vp_any(char const * name, long lo, long hi);
// an input block of n elements of esz bytes with arbitrary contents (allocated as by new[]);
// charset: "#lo,hi" and "@mask" (hexadecimal) are preconditions on every element, anything else only a hint for replay
void * vp_block(char const * name, unsigned long n, unsigned long esz, char const * charset);
void vp_assume(bool c);
void vp_assert(bool c, char const * label);
void vp_on_throw(bool allowed, char const * label);
// ghost observations
void vp_pred_(char const * name, bool (*f)(void *), void * ctx);
void vp_fn_(char const * name, long (*f)(void *, long), void * ctx);
void vp_fn2_(char const * name, long (*f)(void *, long, long), void * ctx);
void vp_forall_(char const * name, bool (*f)(void *, long), void * ctx, long n);
void vp_each_(char const * name, unsigned long recsize, bool (*f)(void *, long), void * ctx, long n);
void vp_setup_(void (*f)(void *), void * ctx);
long vp_rand(long lo, long hi);
void vp_lemma_(char const * name, bool (*f)(void *, long), void * ctx, long n);
void vp_cell(char const * name, long index, long value);
long vp_val(char const * name, long v);
void vp_cover(char const * label);
// in the contract of a callee: the n bytes at p may be read
void vp_readable(void const * p, unsigned long n);
}

// ghost functions: vpspec<laws>_<name>; laws (each proved by induction on the last argument and then used):
//   b: values in {0,1}   n: values >= 0   u: non-decreasing in the last argument   d: non-increasing   c<k>: grows by at most 2^k per step
//   s: keeps its value once it is not 0
//   m: grows by at most the argument before the last (or 0) per step
#define VP_SPEC extern "C" __attribute__((noinline, optnone)) long
// the contract of a callee, used in its place by the entries that a "// calls:" directive names; its body is verified against it by another entry
#define VP_STUB extern "C" __attribute__((used))
#define VP_CONTRACT(prop, name) extern "C" void vpc_##prop##_##name()

template<class F> inline void vp_pred(char const * name, F & f)
{ vp_pred_(name, [](void * p) -> bool { return (*static_cast<F *>(p))(); }, &f); }
template<class F> inline void vp_fn(char const * name, F & f)
{ vp_fn_(name, [](void * p, long e) -> long { return (*static_cast<F *>(p))(e); }, &f); }
// two-argument ghost observation: second argument ranges over the variables of enclosing loops
template<class F> inline void vp_fn2(char const * name, F & f)
{ vp_fn2_(name, [](void * p, long a, long b) -> long { return (*static_cast<F *>(p))(a, b); }, &f); }
// proves f(0) and f(k-1) => f(k) for 0 < k <= n, then uses f(n)
template<class F> inline void vp_lemma(char const * name, F & f, long n)
{ vp_lemma_(name, [](void * p, long e) -> bool { return (*static_cast<F *>(p))(e); }, &f, n); }
// proves f(k) for every 0 <= k < n, then uses it for the iteration count of every loop
template<class F> inline void vp_forall(char const * name, F & f, long n)
{ vp_forall_(name, [](void * p, long e) -> bool { return (*static_cast<F *>(p))(e); }, &f, n); }
// precondition: f(k) for every record k in [0,n) of recsize bytes of the input block
template<class F> inline void vp_each(char const * name, unsigned long recsize, F & f, long n)
{ vp_each_(name, recsize, [](void * p, long e) -> bool { return (*static_cast<F *>(p))(e); }, &f, n); }
// concrete runs only (the verifier ignores it): adjusts the contents of input blocks so that the preconditions that follow are likely to hold
template<class F> inline void vp_setup(F & f)
{ vp_setup_([](void * p) { (*static_cast<F *>(p))(); }, &f); }
