// Line-protocol driver over the public C API. One command per line on stdin, one response line on stdout.
// Strings travel as hex: bytes for UTF-8 arguments, big-endian 32-bit code units for wide arguments.
// Every argument buffer is a heap block of exactly the size the API promises to read, so that the
// sanitizer build sees any access outside it.
#include <voikko.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <atomic>
#include <thread>
#include <chrono>
#include <dirent.h>
#include <malloc.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif
#endif
using namespace std;
#include <pwd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>

// stand-in: the user's home directory is the one the check names, never the real one
extern "C" int getpwuid_r(uid_t uid, struct passwd * pwd, char * buf, size_t n, struct passwd ** res) {
	const char * home = getenv("DRV_HOME");
	*res = 0;
	if (!home || strlen(home) + 1 > n) return 0;
	memset(pwd, 0, sizeof(*pwd));
	pwd->pw_uid = uid;
	strcpy(buf, home);
	pwd->pw_dir = buf;
	*res = pwd;
	return 0;
}

#ifndef __clang__
#define HAVE_FAULTS 1
// stand-in: the n-th mapping of a file from now on fails
static atomic<int> failMap(0);
extern "C" void * mmap(void * a, size_t l, int pr, int fl, int fd, off_t o) noexcept {
	if (fd >= 0 && failMap > 0 && --failMap == 0) { errno = ENOMEM; return MAP_FAILED; }
	return (void *) syscall(SYS_mmap, a, l, pr, fl, fd, o);
}
#endif

// Work counter: the library of the "steps" build calls this at every basic block.
static unsigned long long steps = 0, stepLimit = 0;
#ifdef COUNT_STEPS
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t *) {
	if (++steps == stepLimit) { static const char m[] = "step limit exceeded\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t * a, uint32_t * b) { while (a < b) *a++ = 1; }
#endif

static const int MAXH = 256;
static thread_local VoikkoHandle * H[MAXH];
static thread_local int OH[MAXH];
static thread_local string out;

static int hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static string unhex(const string & s) {
	string r; r.reserve(s.size() / 2);
	for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)(hexval(s[i]) * 16 + hexval(s[i + 1])));
	return r;
}
static void hex(const char * s, size_t n) {
	static const char * d = "0123456789abcdef";
	for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; out.push_back(d[c >> 4]); out.push_back(d[c & 15]); }
}
static void hexz(const char * s) { hex(s, strlen(s)); }
static void hexw(const wchar_t * s) {
	static const char * d = "0123456789abcdef";
	for (; *s; s++) { unsigned u = (unsigned)*s; for (int k = 28; k >= 0; k -= 4) out.push_back(d[(u >> k) & 15]); }
}
static void num(long long n) { out += to_string(n); }
// exact-size copies, with or without the terminator
struct B { char * p; size_t n; B(const string & h, bool z) { string s = unhex(h); n = s.size(); p = (char*)malloc(n + z ? n + z : 1);
	memcpy(p, s.data(), n); if (z) p[n] = 0; if (n + z == 0) { free(p); p = (char*)malloc(0); } } ~B() { free(p); } };
struct W { wchar_t * p; size_t n; W(const string & h, bool z) { n = h.size() / 8; p = (wchar_t*)malloc((n + z) * sizeof(wchar_t));
	for (size_t i = 0; i < n; i++) { unsigned u = 0; for (int k = 0; k < 8; k++) u = u * 16 + hexval(h[i * 8 + k]); p[i] = (wchar_t)u; }
	if (z) p[n] = 0; } ~W() { free(p); } };
struct OptB { char * p; OptB(const string & h) { p = 0; if (h != "-") { string s = unhex(h); p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } } ~OptB() { free(p); } };

static size_t utf8bytes(const char * p, size_t n, size_t chars) {
	size_t i = 0;
	while (chars && i < n) { unsigned char c = p[i]; i += c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; chars--; }
	return i > n ? n : i;
}
static void cstrarr(char ** a) {
	if (!a) { out += "N"; return; }
	out += "L";
	for (char ** i = a; *i; i++) { out += " "; hexz(*i); if (!**i) out += "_"; }
	voikkoFreeCstrArray(a);
}
static void ucsarr(wchar_t ** a) {
	if (!a) { out += "N"; return; }
	out += "L";
	for (wchar_t ** i = a; *i; i++) { out += " "; hexw(*i); if (!**i) out += "_"; }
	voikko_free_suggest_ucs4(a);
}
static void analyses(voikko_mor_analysis ** a, bool viaCstr) {
	if (!a) { out += "N"; return; }
	out += "L";
	for (voikko_mor_analysis ** i = a; *i; i++) {
		out += " ";
		const char ** keys = voikko_mor_analysis_keys(*i);
		for (const char ** k = keys; *k; k++) {
			if (k != keys) out += ";";
			out += *k; out += "=";
			if (viaCstr) {
				char * v = voikko_mor_analysis_value_cstr(*i, *k);
				if (!v) out += "!"; else { hexz(v); voikko_free_mor_analysis_value_cstr(v); }
			} else {
				const wchar_t * v = voikko_mor_analysis_value_ucs4(*i, *k);
				if (!v) out += "!"; else hexw(v);
			}
		}
		if (!*keys) out += "_";
		// a key that is not there must be reported as absent
		if (voikko_mor_analysis_value_ucs4(*i, "NOSUCHKEY")) out += ";NOSUCHKEY=21";
	}
	voikko_free_mor_analysis(a);
}
static void gerr(VoikkoGrammarError * e, const char * lang) {
	num(voikkoGetGrammarErrorCode(e)); out += ":"; num((long long)voikkoGetGrammarErrorStartPos(e)); out += ":";
	num((long long)voikkoGetGrammarErrorLength(e)); out += ":";
	const char ** s = voikkoGetGrammarErrorSuggestions(e);
	if (!s) out += "N";
	else { out += "L"; for (; *s; s++) { out += ","; hexz(*s); } }
	if (lang) { out += ":"; char * d = voikkoGetGrammarErrorShortDescription(e, lang); if (d) { hexz(d); voikkoFreeErrorMessageCstr(d); } else out += "N"; }
	voikkoFreeGrammarError(e);
}
static void dicts(voikko_dict ** d) {
	if (!d) { out += "N"; return; }
	out += "L";
	for (voikko_dict ** i = d; *i; i++) {
		out += " "; hexz(voikko_dict_language(*i)); out += ","; hexz(voikko_dict_script(*i)); out += ",";
		hexz(voikko_dict_variant(*i)); out += ","; hexz(voikko_dict_description(*i));
	}
	voikko_free_dicts(d);
}
// results kept across other calls: read again, compared and released later
struct Held { int kind; void * p; string seen; };
static thread_local vector<Held> held;
static string renderHeld(const Held & h) {
	string save; save.swap(out);
	if (h.kind == 0) { for (wchar_t ** i = (wchar_t**)h.p; *i; i++) { hexw(*i); out += " "; } }
	else if (h.kind == 1) hexz((char*)h.p);
	else if (h.kind == 2) { for (voikko_mor_analysis ** i = (voikko_mor_analysis**)h.p; *i; i++) for (const char ** k = voikko_mor_analysis_keys(*i); *k; k++) {
		out += *k; out += "="; hexw(voikko_mor_analysis_value_ucs4(*i, *k)); out += ";"; } }
	else if (h.kind == 3) { VoikkoGrammarError * e = (VoikkoGrammarError*)h.p; num(voikkoGetGrammarErrorCode(e)); out += ":"; num((long long)voikkoGetGrammarErrorStartPos(e)); out += ":";
		num((long long)voikkoGetGrammarErrorLength(e)); const char ** s = voikkoGetGrammarErrorSuggestions(e); if (s) for (; *s; s++) { out += ","; hexz(*s); } }
	else if (h.kind == 4) { for (char ** i = (char**)h.p; *i; i++) { hexz(*i); out += " "; } }
	save.swap(out); return save;
}
static void hold(int kind, void * p) { if (!p) { out += "N"; return; } Held h = { kind, p, "" }; h.seen = renderHeld(h); held.push_back(h); out += "H"; }
static void release() {
	int bad = 0;
	for (Held & h : held) {
		if (renderHeld(h) != h.seen) bad++;
		if (h.kind == 0) voikko_free_suggest_ucs4((wchar_t**)h.p);
		else if (h.kind == 1) voikkoFreeCstr((char*)h.p);
		else if (h.kind == 2) voikko_free_mor_analysis((voikko_mor_analysis**)h.p);
		else if (h.kind == 3) voikkoFreeGrammarError((VoikkoGrammarError*)h.p);
		else voikkoFreeCstrArray((char**)h.p);
	}
	num(held.size()); out += ":"; num(bad); held.clear();
}
static int countLines(const char * f) { FILE * x = fopen(f, "r"); if (!x) return -1; int n = 0, c; while ((c = getc(x)) != EOF) n += c == '\n'; fclose(x); return n; }
// mapped dictionary files
static int countVfst() { FILE * x = fopen("/proc/self/maps", "r"); if (!x) return -1; int n = 0; char buf[8192]; while (fgets(buf, sizeof buf, x)) n += strstr(buf, ".vfst") != 0; fclose(x); return n; }
static int countFds() { DIR * d = opendir("/proc/self/fd"); int n = 0; if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

static thread_local vector<string> f;
static atomic<int> inflight(0);
static atomic<long> overlapped(0);

static void process(const string & line) {
		f.clear();
		size_t p = 0;
		while (true) { size_t q = line.find('\t', p); if (q == string::npos) { f.push_back(line.substr(p)); break; } f.push_back(line.substr(p, q - p)); p = q + 1; }
		out.clear();
		const string & op = f[0];
		steps = 0;
		int h = f.size() > 1 ? atoi(f[1].c_str()) : 0;
		if (op == "init") { // init h lang path
			OptB lang(f[2]), path(f[3]); const char * err = "unset";
			H[h] = voikkoInit(&err, lang.p, path.p);
			if (H[h]) out += err ? "BAD" : "OK"; else { out += "E "; if (err) hexz(err); else out += "N"; }
		}
		else if (op == "term") { if (H[h]) { voikkoTerminate(H[h]); H[h] = 0; out += "OK"; } else out += "NONE"; }
		else if (op == "bo") num(voikkoSetBooleanOption(H[h], atoi(f[2].c_str()), atoi(f[3].c_str())));
		else if (op == "io") num(voikkoSetIntegerOption(H[h], atoi(f[2].c_str()), atoi(f[3].c_str())));
		else if (op == "spU") { W w(f[2], true); num(voikkoSpellUcs4(H[h], w.p)); }
		else if (op == "spC") { B w(f[2], true); num(voikkoSpellCstr(H[h], w.p)); }
		else if (op == "spM") { // many words in one line: space separated
			size_t a = 0; while (a <= f[2].size()) { size_t b = f[2].find(' ', a); if (b == string::npos) b = f[2].size();
				W w(f[2].substr(a, b - a), true); out.push_back((char)('0' + voikkoSpellUcs4(H[h], w.p))); a = b + 1; } }
		else if (op == "sgU") { W w(f[2], true); ucsarr(voikkoSuggestUcs4(H[h], w.p)); }
		else if (op == "sgC") { B w(f[2], true); cstrarr(voikkoSuggestCstr(H[h], w.p)); }
		else if (op == "hyU") { W w(f[2], true); char * r = voikkoHyphenateUcs4(H[h], w.p); if (!r) out += "N"; else { out += "P"; hexz(r); voikkoFreeCstr(r); } }
		else if (op == "hyC") { B w(f[2], true); char * r = voikkoHyphenateCstr(H[h], w.p); if (!r) out += "N"; else { out += "P"; hexz(r); voikkoFreeCstr(r); } }
		else if (op == "ih") { B w(f[2], true), s(f[3], true); char * r = voikkoInsertHyphensCstr(H[h], w.p, s.p, atoi(f[4].c_str())); if (!r) out += "N"; else { out += "P"; hexz(r); voikkoFreeCstr(r); } }
		else if (op == "tkU" || op == "tkX") { // whole text; tkX re-copies the rest of the text for each call
			W w(f[2], false); size_t pos = 0; out += "L";
			while (true) {
				size_t tl = 0x5a5a5a5a; voikko_token_type t;
				if (op == "tkX") { W r(f[2].substr(pos * 8), false); t = voikkoNextTokenUcs4(H[h], r.p, r.n, &tl); }
				else t = voikkoNextTokenUcs4(H[h], w.p + pos, w.n - pos, &tl);
				out += " "; num(t); out += ":"; num((long long)tl);
				if (t == TOKEN_NONE || tl == 0 || tl > w.n - pos) break;
				pos += tl;
			}
		}
		else if (op == "tk1U") { W w(f[2], false); size_t tl = 0x5a5a5a5a; voikko_token_type t = voikkoNextTokenUcs4(H[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "tk1C") { B w(f[2], false); size_t tl = 0x5a5a5a5a; voikko_token_type t = voikkoNextTokenCstr(H[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "tkC") {
			B w(f[2], false); size_t pos = 0; out += "L";
			while (true) {
				size_t tl = 0x5a5a5a5a; voikko_token_type t = voikkoNextTokenCstr(H[h], w.p + pos, w.n - pos, &tl);
				out += " "; num(t); out += ":"; num((long long)tl);
				if (t == TOKEN_NONE || tl == 0 || tl > w.n - pos) break;
				pos += utf8bytes(w.p + pos, w.n - pos, tl);
			}
		}
		else if (op == "st1U") { W w(f[2], false); size_t tl = 0x5a5a5a5a; voikko_sentence_type t = voikkoNextSentenceStartUcs4(H[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "st1C") { B w(f[2], false); size_t tl = 0x5a5a5a5a; voikko_sentence_type t = voikkoNextSentenceStartCstr(H[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "stU") {
			W w(f[2], false); size_t pos = 0; out += "L";
			while (pos < w.n) {
				size_t tl = 0x5a5a5a5a; voikko_sentence_type t = voikkoNextSentenceStartUcs4(H[h], w.p + pos, w.n - pos, &tl);
				out += " "; num(t); out += ":"; num((long long)tl);
				if (t == SENTENCE_NONE || tl == 0 || tl > w.n - pos) break;
				pos += tl;
			}
		}
		else if (op == "stC") {
			B w(f[2], false); size_t pos = 0; out += "L";
			while (pos < w.n) {
				size_t tl = 0x5a5a5a5a; voikko_sentence_type t = voikkoNextSentenceStartCstr(H[h], w.p + pos, w.n - pos, &tl);
				out += " "; num(t); out += ":"; num((long long)tl);
				if (t == SENTENCE_NONE || tl == 0 || tl > w.n - pos) break;
				pos += utf8bytes(w.p + pos, w.n - pos, tl);
			}
		}
		else if (op == "grU" || op == "grC") { // h text startpos skip [lang]
			VoikkoGrammarError * e; size_t st = strtoull(f[3].c_str(), 0, 10); int sk = atoi(f[4].c_str());
			if (op == "grU") { W w(f[2], false); e = voikkoNextGrammarErrorUcs4(H[h], w.p, w.n, st, sk); }
			else { B w(f[2], false); e = voikkoNextGrammarErrorCstr(H[h], w.p, w.n, st, sk); }
			if (!e) out += "N"; else gerr(e, f.size() > 5 ? f[5].c_str() : 0);
		}
		else if (op == "gaU" || op == "gaC" || op == "gaZ") { // enumerate all errors by skip count
			out += "L";
			const char * lang = f.size() > 3 ? f[3].c_str() : 0;
			for (int sk = 0; sk < 2000; sk++) {
				VoikkoGrammarError * e;
				if (op == "gaU") { W w(f[2], false); e = voikkoNextGrammarErrorUcs4(H[h], w.p, w.n, 0, sk); }
				else if (op == "gaZ") { W w(f[2], true); e = voikkoNextGrammarErrorUcs4(H[h], w.p, w.n, 0, sk); }
				else { B w(f[2], false); e = voikkoNextGrammarErrorCstr(H[h], w.p, w.n, 0, sk); }
				if (!e) break;
				out += " "; gerr(e, lang);
			}
		}
		else if (op == "gaX") { // h text tail: the text stands inside a longer buffer
			out += "L";
			W w(f[2] + f[3], false); size_t n = f[2].size() / 8;
			for (int sk = 0; sk < 2000; sk++) {
				VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(H[h], w.p, n, 0, sk);
				if (!e) break;
				out += " "; gerr(e, 0);
			}
		}
		else if (op == "anU") { W w(f[2], true); analyses(voikkoAnalyzeWordUcs4(H[h], w.p), false); }
		else if (op == "anC") { B w(f[2], true); analyses(voikkoAnalyzeWordCstr(H[h], w.p), true); }
		else if (op == "av") { char ** a = voikkoGetAttributeValues(H[h], f[2].c_str()); cstrarr(a); }
		else if (op == "ld") { OptB p(f[1]); dicts(voikko_list_dicts(p.p)); }
		else if (op == "ls") { OptB p(f[1]); cstrarr(voikkoListSupportedSpellingLanguages(p.p)); }
		else if (op == "lh") { OptB p(f[1]); cstrarr(voikkoListSupportedHyphenationLanguages(p.p)); }
		else if (op == "lg") { OptB p(f[1]); cstrarr(voikkoListSupportedGrammarCheckingLanguages(p.p)); }
		else if (op == "em") { const char * m = voikko_error_message_cstr(atoi(f[1].c_str()), f[2].c_str()); if (m) hexz(m); else out += "N"; }
		else if (op == "ver") hexz(voikkoGetVersion());
		// deprecated interface
		else if (op == "oinit") { OptB lang(f[2]), path(f[4]); int hh = -77; const char * e = path.p ? voikko_init_with_path(&hh, lang.p, atoi(f[3].c_str()), path.p) : voikko_init(&hh, lang.p, atoi(f[3].c_str()));
			if (e) { out += "E "; hexz(e); } else { out += "OK"; OH[h] = hh; } }
		else if (op == "oterm") num(voikko_terminate(OH[h]));
		else if (op == "otermraw") num(voikko_terminate(h));
		else if (op == "obo") num(voikko_set_bool_option(OH[h], atoi(f[2].c_str()), atoi(f[3].c_str())));
		else if (op == "oio") num(voikko_set_int_option(OH[h], atoi(f[2].c_str()), atoi(f[3].c_str())));
		else if (op == "oso") { OptB v(f[3]); num(voikko_set_string_option(OH[h], atoi(f[2].c_str()), v.p)); }
		else if (op == "ospU") { W w(f[2], true); num(voikko_spell_ucs4(OH[h], w.p)); }
		else if (op == "ospC") { B w(f[2], true); num(voikko_spell_cstr(OH[h], w.p)); }
		else if (op == "osgU") { W w(f[2], true); ucsarr(voikko_suggest_ucs4(OH[h], w.p)); }
		else if (op == "osgC") { B w(f[2], true); char ** a = voikko_suggest_cstr(OH[h], w.p);
			if (!a) out += "N"; else { out += "L"; for (char ** i = a; *i; i++) { out += " "; hexz(*i); if (!**i) out += "_"; } voikko_free_suggest_cstr(a); } }
		else if (op == "ohyU") { W w(f[2], true); char * r = voikko_hyphenate_ucs4(OH[h], w.p); if (!r) out += "N"; else { out += "P"; hexz(r); voikko_free_hyphenate(r); } }
		else if (op == "ohyC") { B w(f[2], true); char * r = voikko_hyphenate_cstr(OH[h], w.p); if (!r) out += "N"; else { out += "P"; hexz(r); voikko_free_hyphenate(r); } }
		else if (op == "otkU") { W w(f[2], false); size_t pos = 0; out += "L"; while (true) { size_t tl = 0; voikko_token_type t = voikko_next_token_ucs4(OH[h], w.p + pos, w.n - pos, &tl);
			out += " "; num(t); out += ":"; num((long long)tl); if (t == TOKEN_NONE || tl == 0 || tl > w.n - pos) break; pos += tl; } }
		else if (op == "otk1C") { B w(f[2], false); size_t tl = 0; voikko_token_type t = voikko_next_token_cstr(OH[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "ost1U") { W w(f[2], false); size_t tl = 0; voikko_sentence_type t = voikko_next_sentence_start_ucs4(OH[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "ost1C") { B w(f[2], false); size_t tl = 0; voikko_sentence_type t = voikko_next_sentence_start_cstr(OH[h], w.p, w.n, &tl); num(t); out += ":"; num((long long)tl); }
		else if (op == "oanU") { W w(f[2], true); analyses(voikko_analyze_word_ucs4(OH[h], w.p), false); }
		else if (op == "oanC") { B w(f[2], true); analyses(voikko_analyze_word_cstr(OH[h], w.p), true); }
		else if (op == "ogaU" || op == "ogaC") {
			out += "L";
			for (int sk = 0; sk < 2000; sk++) {
				voikko_grammar_error e;
				if (op == "ogaU") { W w(f[2], false); e = voikko_next_grammar_error_ucs4(OH[h], w.p, w.n, 0, sk); }
				else { B w(f[2], false); e = voikko_next_grammar_error_cstr(OH[h], w.p, w.n, 0, sk); }
				if (!e.error_code) break;
				out += " "; num(e.error_code); out += ":"; num((long long)e.startpos); out += ":"; num((long long)e.errorlen); out += ":";
				if (!e.suggestions) out += "N"; else { out += "L"; for (char ** s = e.suggestions; *s; s++) { out += ","; hexz(*s); } voikko_free_suggest_cstr(e.suggestions); }
			}
		}
		else if (op == "hsg") { W w(f[2], true); hold(0, voikkoSuggestUcs4(H[h], w.p)); }
		else if (op == "hsc") { B w(f[2], true); hold(4, voikkoSuggestCstr(H[h], w.p)); }
		else if (op == "hhy") { W w(f[2], true); hold(1, voikkoHyphenateUcs4(H[h], w.p)); }
		else if (op == "han") { W w(f[2], true); hold(2, voikkoAnalyzeWordUcs4(H[h], w.p)); }
		else if (op == "hgr") { W w(f[2], false); hold(3, voikkoNextGrammarErrorUcs4(H[h], w.p, w.n, 0, atoi(f[3].c_str()))); }
		else if (op == "rel") release();
		// faults: the n-th file mapping fails; at most n more descriptors can be opened
		else if (op == "failmap") {
#ifdef HAVE_FAULTS
			failMap = atoi(f[1].c_str());
#endif
			out += "OK"; }
		else if (op == "fdlimit") {
#ifdef HAVE_FAULTS
			struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); int n = atoi(f[1].c_str());
			l.rlim_cur = n < 0 ? l.rlim_max : (rlim_t)(3 + n); if (n < 0 && l.rlim_cur > 65536) l.rlim_cur = 65536;
			if (setrlimit(RLIMIT_NOFILE, &l)) out += "FAILED"; else out += "OK"; }
#else
			out += "OK"; }
#endif
		// resource monitors
		else if (op == "res") { out += "vfst="; num(countVfst()); out += " fds="; num(countFds()); out += " heap=";
#ifdef HAVE_ASAN
			num((long long)__sanitizer_get_current_allocated_bytes());
#else
			struct mallinfo2 mi = mallinfo2(); num((long long)(mi.uordblks + mi.hblkhd));
#endif
		}
		else if (op == "leak") {
#ifdef HAVE_ASAN
			num(__lsan_do_recoverable_leak_check());
#else
			out += "0";
#endif
		}
		else if (op == "#") out += "#";
		else if (op == "lim") { stepLimit = strtoull(f[1].c_str(), 0, 10); out += "OK"; }
		else { out += "??"; }
#ifdef COUNT_STEPS
		{ unsigned long long n = steps; out += "\t"; num((long long)n); }
#endif
		out.push_back('\n');
}

// one stream of commands in a thread of its own
static void stream(const char * in, atomic<int> * barrier, int n, unsigned jitter) {
	ifstream is(in); vector<string> lines; string l;
	while (getline(is, l)) lines.push_back(l);
	string all;
	barrier->fetch_add(1, memory_order_relaxed);
	while (barrier->load(memory_order_relaxed) < n) this_thread::yield();
	for (const string & c : lines) {
		if (inflight.fetch_add(1, memory_order_relaxed) > 0) overlapped.fetch_add(1, memory_order_relaxed);
		process(c);
		inflight.fetch_sub(1, memory_order_relaxed);
		all += out;
		if (jitter) { jitter = jitter * 1103515245u + 12345u; if ((jitter >> 16) % 13 == 0) this_thread::sleep_for(chrono::microseconds((jitter >> 20) % 400)); }
	}
	FILE * o = fopen((string(in) + ".out").c_str(), "w");
	fwrite(all.data(), 1, all.size(), o);
	fclose(o);
}

int main(int argc, char ** argv) {
	if (argc > 2 && !strcmp(argv[1], "--mt")) {
		atomic<int> barrier(0);
		vector<thread> ts;
		unsigned jitter = (unsigned)atoi(argv[2]);
		for (int i = 3; i < argc; i++) ts.emplace_back(stream, argv[i], &barrier, argc - 3, jitter ? jitter + i : 0);
		for (thread & t : ts) t.join();
		printf("overlapped %ld\n", overlapped.load());
		return 0;
	}
	string line;
	static char iobuf[1 << 16];
	setvbuf(stdout, iobuf, _IOFBF, sizeof iobuf);
	bool autoflush = getenv("DRV_FLUSH") != 0;
	ios::sync_with_stdio(false);
	while (getline(cin, line)) {
		process(line);
		fwrite(out.data(), 1, out.size(), stdout);
		if (autoflush) fflush(stdout);
	}
	fflush(stdout);
	return 0;
}
