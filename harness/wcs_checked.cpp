// Wide-string functions of libc, re-implemented so that the address sanitizer sees every element they touch
// (it has no interceptors for most of them). Linked into the sanitizer builds only.
#include <cstddef>
#include <cwchar>
#define USED __attribute__((noinline, optnone))
extern "C" {
USED size_t wcslen(const wchar_t * s) { size_t n = 0; while (s[n]) n++; return n; }
USED int wcscmp(const wchar_t * a, const wchar_t * b) {
	for (; ; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
USED int wcsncmp(const wchar_t * a, const wchar_t * b, size_t n) {
	for (; n; a++, b++, n--) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
USED wchar_t * wcscpy(wchar_t * d, const wchar_t * s) { wchar_t * r = d; while ((*d++ = *s++)) {} return r; }
USED wchar_t * wcsncpy(wchar_t * d, const wchar_t * s, size_t n) {
	size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
USED wchar_t * wmemcpy(wchar_t * d, const wchar_t * s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
USED int wmemcmp(const wchar_t * a, const wchar_t * b, size_t n) {
	int r = 0; for (size_t i = 0; i < n; i++) if (!r && a[i] != b[i]) r = a[i] < b[i] ? -1 : 1; return r; }
}
USED static wchar_t * chr(const wchar_t * s, wchar_t c) { for (; ; s++) { if (*s == c) return (wchar_t *) s; if (!*s) return 0; } }
USED static wchar_t * mchr(const wchar_t * s, wchar_t c, size_t n) { for (; n; s++, n--) if (*s == c) return (wchar_t *) s; return 0; }
USED static wchar_t * str(const wchar_t * h, const wchar_t * n) {
	for (; ; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (wchar_t *) h; if (!*h) return 0; } }
extern "C" {
wchar_t * verif_wcschr(const wchar_t * s, wchar_t c) __asm__("wcschr");
wchar_t * verif_wcschr(const wchar_t * s, wchar_t c) { return chr(s, c); }
wchar_t * verif_wmemchr(const wchar_t * s, wchar_t c, size_t n) __asm__("wmemchr");
wchar_t * verif_wmemchr(const wchar_t * s, wchar_t c, size_t n) { return mchr(s, c, n); }
wchar_t * verif_wcsstr(const wchar_t * h, const wchar_t * n) __asm__("wcsstr");
wchar_t * verif_wcsstr(const wchar_t * h, const wchar_t * n) { return str(h, n); }
}
