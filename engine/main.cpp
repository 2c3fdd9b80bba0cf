// dalsym: bounded symbolic execution of LLVM IR (clang 18) with Z3 as the deciding solver.
#include <unistd.h>
#include <algorithm>
#include "exec_core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sys/resource.h>
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
void Exec::report(const char* file) {
    FILE* f = fopen(file, "w"); if (!f) { perror(file); exit(3); }
    fprintf(f, "{\"harness\":%s,\"mode\":%d,\"paths\":%llu,\"done\":%llu,\"killed\":%llu,\"path_errors\":%llu,\"exhausted\":%s,\"steps\":%llu,\"forks\":%llu,\"uncertain\":%llu,\n", js(harness).c_str(), mode, (unsigned long long)paths, (unsigned long long)done, (unsigned long long)killed, (unsigned long long)errs, exhausted ? "true" : "false", (unsigned long long)steps, (unsigned long long)forks, (unsigned long long)uncertain);
    fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,\n", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cached, g_ss.time, g_ss.maxTime, nowS() - t0);
    fprintf(f, "\"asserts\":{"); bool c = false; for (auto& a : asserts) { fprintf(f, "%s\n  %s:{\"checked\":%llu,\"discharged\":%llu,\"constant\":%llu,\"violated\":%llu,\"unknown\":%llu}", c ? "," : "", js(a.first).c_str(), (unsigned long long)a.second.checked, (unsigned long long)a.second.discharged, (unsigned long long)a.second.constTrue, (unsigned long long)a.second.violated, (unsigned long long)a.second.unknown); c = true; }
    fprintf(f, "},\n\"reached\":{"); c = false; for (auto& a : reached) { fprintf(f, "%s%s:%llu", c ? "," : "", js(a.first).c_str(), (unsigned long long)a.second); c = true; }
    fprintf(f, "},\n\"errors\":{"); c = false; for (auto& a : errors) { fprintf(f, "%s\n  %s:%llu", c ? "," : "", js(a.first).c_str(), (unsigned long long)a.second); c = true; }
    fprintf(f, "},\n\"fork_sites\":{"); c = false; std::vector<std::pair<uint64_t, std::string>> fs; for (auto& a : forkSites) fs.push_back({a.second, a.first}); std::sort(fs.rbegin(), fs.rend()); if (fs.size() > 12) fs.resize(12); for (auto& a : fs) { fprintf(f, "%s%s:%llu", c ? "," : "", js(a.second).c_str(), (unsigned long long)a.first); c = true; }
    fprintf(f, "},\n\"functions\":["); c = false; std::vector<std::string> fn; for (auto& a : byName) if (a.second->calls && !a.second->decl && a.first.find("3Dal") != std::string::npos) fn.push_back(a.first); std::sort(fn.begin(), fn.end()); for (auto& a : fn) { fprintf(f, "%s%s", c ? "," : "", js(a).c_str()); c = true; }
    fprintf(f, "],\n\"candidates\":["); c = false; for (auto& a : cands) { fprintf(f, "%s\n  {\"kind\":%s,\"msg\":%s,\"file\":%s,\"confirmed\":%s,\"inputs\":%s}", c ? "," : "", js(a.kind).c_str(), js(a.msg).c_str(), js(a.file).c_str(), a.confirmed ? "true" : "false", js(a.inputs).c_str()); c = true; }
    fprintf(f, "],\n\"samples\":["); c = false; for (auto& a : samples) { fprintf(f, "%s%s", c ? "," : "", js(a).c_str()); c = true; }
    fprintf(f, "]}\n"); fclose(f);
}
static std::string bc, out; static bool profile = false;
static void* body(void*) {
    solverInit(X.seed); X.load(bc.c_str()); X.run(X.harness); X.report(out.c_str());
    if (X.verbose) { fprintf(stderr, "%s: paths %llu done %llu killed %llu errors %llu cands %zu exhausted %d queries %llu solver %.1fs wall %.1fs steps %llu\n", X.harness.c_str(), (unsigned long long)X.paths, (unsigned long long)X.done, (unsigned long long)X.killed, (unsigned long long)X.errs, X.cands.size(), X.exhausted, (unsigned long long)g_ss.queries, g_ss.time, nowS() - X.t0, (unsigned long long)X.steps); }
    if (profile) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& a : X.forkSites) v.push_back({a.second, a.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; ++i) fprintf(stderr, "fork %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
    fflush(stdout); fflush(stderr); _exit(0);
}
#include <unistd.h>
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--bc") bc = nx(); else if (a == "--fn") X.harness = nx(); else if (a == "--out") out = nx(); else if (a == "--budget") X.budget = atof(nx().c_str()); else if (a == "--steps") X.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--tb") X.tmoBranch = atoi(nx().c_str()); else if (a == "--ta") X.tmoAssert = atoi(nx().c_str()); else if (a == "--replay") X.replayCmd = nx(); else if (a == "--prefix") X.outPrefix = nx(); else if (a == "--maxcand") X.maxCand = atoi(nx().c_str()); else if (a == "-v") X.verbose = true; else if (a == "--prof") profile = true; else if (a == "--seed") X.seed = atoi(nx().c_str()); else if (a == "--shard") { std::string t = nx(); sscanf(t.c_str(), "%d/%d", &X.shardI, &X.shardN); } else if (a == "--ieee") X.mode = 1; else if (a == "--race") X.raceOn = true; else if (a == "--spurious") X.maxSpurious = atoi(nx().c_str()); else if (a == "--preempt") X.maxPreempt = atoi(nx().c_str()); else if (a == "--maxpaths") X.maxPaths = atoi(nx().c_str()); else if (a == "--bfs") X.bfs = true; else if (a == "--dump") g_dumpDir = nx(); else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
    }
    if (out.empty()) out = "/dev/stdout"; if (X.outPrefix.empty()) X.outPrefix = out;
    registerBuiltins(); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 32); pthread_t th; if (pthread_create(&th, &at, body, nullptr)) { pthread_attr_setstacksize(&at, 1ull << 29); if (pthread_create(&th, &at, body, nullptr)) return 3; } pthread_join(th, nullptr); return 0;
}
