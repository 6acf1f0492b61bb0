// Independent reference model of what slugs computes: explicit-state GR(1) games.
#pragma once
#include "seams.h"
#include <set>
#include <memory>
namespace dst {
typedef std::vector<uint8_t> TT;                 // truth table over 2n bits: index = pre | post<<n
struct Spec {
    std::vector<std::string> in,out;             // pre variable names (inputs first in the bit numbering)
    std::vector<std::string> initEnv,initSys,envTrans,sysTrans,envLive,sysLive;   // prefix formulas
    // extra sections
    std::vector<std::string> fast;               // IROS fast outputs (subset; kept in out as well), see toText
    std::string text() const;
    std::string lines(const char *hdr,const std::vector<std::string>&v) const;
};
struct Game {
    int ni=0,no=0,n=0; uint32_t N=0;             // N = 2^n states
    std::vector<std::string> names;              // n names
    TT initEnv,initSys;                          // over pre bits (size N)
    TT envT,sysT;                                // N*N
    std::vector<TT> A,G;                         // N*N each (at least one of each)
    bool envOK(uint32_t s,uint32_t i2)const{ return envT[s|(i2<<n)]; }   // independent of post outputs
    bool sysOK(uint32_t s,uint32_t t)const{ return sysT[s|(t<<n)]; }
    uint32_t inMask()const{return (1u<<ni)-1;}
};
bool parseSpecText(const std::string &txt,Spec &s,std::string &err);     // own reader of the slugsin format
bool makeGame(const Spec &s,Game &g,std::string &err);
// evaluation of a prefix formula; names -> bit
bool evalFormula(const std::string &f,const std::map<std::string,int> &bit,int nbits,TT &out,std::string &err);
std::vector<uint8_t> winSys(const Game &g);      // winning region of the system player
bool realizablePlain(const Game &g,const std::vector<uint8_t>&w);
bool realizableRobotics(const Game &g,const std::vector<uint8_t>&w);
struct GenOpt { int maxIn=3,maxOut=3; int minIn=0,minOut=1; int maxG=3,maxA=2; bool postLive=true; bool trivialInit=false; int maxBits=5; };
Spec randomSpec(Rng &r,const GenOpt &o);
std::string randFormula(Rng &r,const std::vector<std::string>&vars,int depth);
uint64_t gameHash(const Game &g);
// A finite machine as printed by slugs
struct MNode { uint32_t val; int rank; std::vector<int> succ; bool noSucc=false; int rank2=-1; };
struct Machine { std::vector<std::string> names; std::vector<MNode> nodes; };
// Language check for a closed loop: is there a cycle reachable that satisfies all of `must` infinitely often and avoids `never` from some point on?
struct Edge { int to; uint64_t lab; };           // bit i of lab: condition i holds on this edge
bool badLasso(const std::vector<std::vector<Edge>>&g,const std::vector<int>&init,uint64_t mustAll,uint64_t avoid);
std::string valStr(const Game&g,uint32_t v);
std::vector<std::string> splitLines(const std::string&s);
std::string trim(const std::string&s);
}
