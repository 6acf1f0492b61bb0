// Workloads shared by the fault and determinism properties: every mode of the tool with a matching random input.
#pragma once
#include "props.h"
#include <algorithm>
#include <cstring>
namespace dst {
std::vector<std::string> words(const std::string&s);
bool has(const Case&c,const char*o);
enum { W_PLAIN=1, W_OUTFILE=2, W_INTERACTIVE=4, W_ANALYSIS=8, W_FASTSLOW=16, W_COST=32, W_MOTION=64, W_ESTIM=128, W_ALL=255 };
// fills args and disk ("s.in" and further inputs); outputs go to "o.out" when a file is used
void addWorkload(Rng&r,Case&c,int which,const GenOpt&g,bool wantRealizable=false);
void interactiveScript(Rng&r,Case&c,const Spec&s,int len,int garbagePct);   // stores the script in par "stdin"
std::string randomCostFile(Rng&r,const Spec&s);
void motionWorkload(Rng&r,Case&c);
void estimatorWorkload(Rng&r,Case&c,int maxBits);
void makeFastSlow(Rng&r,Spec&s);
void groupNames(Rng&r,Spec&s);                     // names that say that they encode a number
Job clientJob(const Case&c);                       // job with the script in par "stdin" as standard input (if present)
std::string checkController(const Game&g,const std::vector<uint32_t>&val,const std::vector<std::vector<int>>&succ,const std::vector<int>&init,bool ignoreEnvViolating,bool multi=false);
extern const char *REAL,*STUB;
}
