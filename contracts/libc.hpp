// reference definitions of libc functions for the verifier (the native replay uses the real ones)
#pragma once
#ifndef VP_NATIVE
extern "C" int memcmp(void const * a, void const * b, unsigned long n)
{
  unsigned char const * p = static_cast<unsigned char const *>(a), * q = static_cast<unsigned char const *>(b);
  for (unsigned long i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
#endif
