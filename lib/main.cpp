#include "harness.h"
#include <cstdio>
#include <cstdlib>
struct P { const char* id; void (*f)(); bool google; };
#if defined(GROUP_DIGEST)
static const P PS[] = {{"C20", run_C20, false}, {"C09", run_C09, false}, {"C10", run_C10, false}, {"C11", run_C11, false}, {"C12", run_C12, false}, {"C14", run_C14, false}, {"C15", run_C15, false},
  {"C01", run_C01, false}, {"C07", run_C07, false}, {"C08", run_C08, false}, {"C13", run_C13, false}};
#define NO_GOOGLE
#elif defined(GROUP_CODEC)
static const P PS[] = {{"C01", run_C01, false}, {"C02", run_C02, true}, {"C03", run_C03, true}, {"C04", run_C04, true}, {"C05", run_C05, false}, {"C06", run_C06, false},
  {"C07", run_C07, false}, {"C08", run_C08, false}, {"C13", run_C13, false}, {"C16", run_C16, false}, {"C18", run_C18, false}, {"C26", run_C26, true}};
#elif defined(GROUP_OPS)
static const P PS[] = {{"C09", run_C09, false}, {"C10", run_C10, false}, {"C11", run_C11, false}, {"C12", run_C12, false}, {"C25", run_C25, false}};
#define NO_GOOGLE
#elif defined(GROUP_ENV)
static const P PS[] = {{"C22", run_C22, false}, {"C23", run_C23, false}};
#define NO_GOOGLE
#elif defined(GROUP_BUF)
static const P PS[] = {{"C14", run_C14, false}, {"C15", run_C15, false}};
#define NO_GOOGLE
#elif defined(GROUP_FIELD)
static const P PS[] = {{"C24", run_C24, false}};
#define NO_GOOGLE
#endif
#ifdef NO_GOOGLE
bool g_decode(const MsgD*, const std::string&, MsgV&, size_t*, std::string*) { return false; }
bool g_init(const std::string&) { return true; }
#endif
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
int main(int argc, char** argv) {
#ifdef GROUP_DIGEST
  cx.skip_missing = true;   // built with a part of the messages
#endif
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") cx.prop = v; else if (k == "--tier") { cx.thorough = v == "thorough"; cx.lite = v == "lite"; }
    else if (k == "--shard") { cx.shard = strtoull(v.c_str(), nullptr, 10); cx.nshards = strtoull(v.c_str() + v.find('/') + 1, nullptr, 10); }
    else if (k == "--case") cx.only = atoll(v.c_str()); else if (k == "--inst") cx.only_inst = v; else if (k == "--ds") cx.dsfile = v; else if (k == "--hashfile") cx.hashfile = v;
    else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
  }
  for (auto& p : PS) if (cx.prop == p.id) {
    if (p.google && !g_init(cx.dsfile)) { fprintf(stderr, "cannot load the descriptor set\n"); return 3; }
    arm_watchdog();
    p.f();
    cx.section = "done";
    if (!cx.hashfile.empty()) {
      FILE* f = fopen(cx.hashfile.c_str(), "wb"); if (!f) return 3;
      for (uint64_t h : cx.tab) if (h) fwrite(&h, 8, 1, f);
      fclose(f);
    }
    printf("STATS {\"evals\": %llu, \"cases\": %llu, \"transitions\": %llu, \"states\": %llu, \"traces\": %llu, \"stats\": {", (unsigned long long)cx.evals, (unsigned long long)cx.counter, (unsigned long long)cx.transitions, (unsigned long long)cx.states, (unsigned long long)cx.traces);
    bool first = true; for (auto& s : cx.stats) { printf("%s%s: %llu", first ? "" : ", ", js(s.first).c_str(), (unsigned long long)s.second); first = false; }
    printf("}, \"samples\": ["); first = true; for (auto& s : cx.samples) { printf("%s%s", first ? "" : ", ", js(s).c_str()); first = false; }
    printf("]}\n");
    fflush(stdout);
    return 0;
  }
  fprintf(stderr, "unknown property\n"); return 3;
}
