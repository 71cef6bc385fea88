#pragma once
// trusted model of the C library's sprintf for the conversions the interpreter uses (%X %d %u %s %c %n %%, flag 0, width or *)
#include <stdarg.h>
#ifndef V_REPLAY
static int v_vsprintf(char *s, size_t max, const char *f, va_list ap){
	int n = 0;
#define OUT(c) do { if ((size_t)n < max) s[n] = (c); n++; } while (0)
	for (int i = 0; i < 24 && f[i]; ++i) {
		if (f[i] != '%') { OUT(f[i]); continue; }
		++i;
		bool zero = false; int width = 0;
		if (f[i] == '0') { zero = true; ++i; }
		if (f[i] == '*') { width = va_arg(ap, int); ++i; }
		else for (int k = 0; k < 2 && f[i] >= '0' && f[i] <= '9'; ++k) { width = width * 10 + (f[i] - '0'); ++i; }
		if (f[i] == 'n') *va_arg(ap, int*) = n;
		else if (f[i] == 'c') OUT((char)va_arg(ap, int));
		else if (f[i] == '%') OUT('%');
		else if (f[i] == 's') { const char *t = va_arg(ap, const char*); for (int k = 0; k < 20 && t[k]; ++k) OUT(t[k]); }
		else if (f[i] == 'X' || f[i] == 'x') {
			unsigned v = va_arg(ap, unsigned); int nd = 1;
			for (int k = 1; k < 8; ++k) if (v >> (4 * k)) nd = k + 1;
			for (int k = 7; k >= 0; --k) {
				unsigned d = (v >> (4 * k)) & 15;
				if (k < nd) OUT((char)(d < 10 ? '0' + d : (f[i] == 'X' ? 'A' : 'a') + d - 10));
				else if (k < width) OUT(zero ? '0' : ' ');
			}
		} else V_CHECK("sprintf model: conversion not modelled", 0);
	}
	if (max) s[(size_t)n < max ? n : max - 1] = 0;
	return n;
}
int sprintf(char *s, const char *f, ...){ va_list ap; va_start(ap, f); int n = v_vsprintf(s, 4096, f, ap); va_end(ap); return n; }
int snprintf(char *s, size_t max, const char *f, ...){ va_list ap; va_start(ap, f); int n = v_vsprintf(s, max, f, ap); va_end(ap); return n; }
#endif
