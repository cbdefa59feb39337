// Drives the tree-search strategies (real objects) through operation histories and logs what is observable after every operation.
// job: {"job":id,"kind":"heap|dive|probed|dfs|dfsdyn","opts":"...","cmp":"bound|depth","nsol":k,"nlim":k,
//       "ops":[["child",obj,guess],["back"],["best",cutoff],["clean",cutoff],["newsol",count],["every",n],["copy"],["assign"],["pop"]]}
#include <list>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <cassert>
#include "OsiSolverInterface.hpp"
#include "OsiClpSolverInterface.hpp"
#include "CoinSearchTree.hpp"
#include "CoinMessageHandler.hpp"
#include "OsiCuts.hpp"
#include "CoinWarmStartBasis.hpp"
#include <sstream>
#include <iostream>
#include <functional>
#include "minlp_std.hpp"
#define private public            // Cbc's node class (not part of the code under test) has no setter for its node information
#include "CbcNode.hpp"
#include "CbcModel.hpp"
#undef private
#include "CbcFullNodeInfo.hpp"
#include "CbcCompareObjective.hpp"
#include "CbcCompareDepth.hpp"
#include "CbcTree.hpp"
#include "CbcBranchingObject.hpp"
#include "OsiClpSolverInterface.hpp"
#include "minlp.hpp"
#include "BonDiver.hpp"
using namespace vp; using namespace Bonmin;
struct BObj : public CbcBranchingObject {
  BObj(CbcModel* m) : CbcBranchingObject(m,0,-1,0.5) { setNumberBranches(2); }
  BObj(const BObj& o) : CbcBranchingObject(o) {}
  virtual CbcBranchingObject* clone() const { return new BObj(*this); }
  virtual double branch() { decrementNumberBranchesLeft(); return 0; }
  virtual CbcBranchObjType type() const { return SimpleIntegerBranchObj; }
  virtual CbcRangeCompare compareBranchingObject(const CbcBranchingObject*, const bool=false) { return CbcRangeSame; }
};
template <class T> struct Open : public T {            // exposes the heap (a protected member of Cbc's tree)
  Open(const T& t) : T(t) {}
  std::vector<CbcNode*>& heap() { return this->nodes_; }
};
struct Run {
  const json& J; Log log; CbcModel model; CbcTree* tree=nullptr; std::map<CbcNode*,int> id; std::map<int,CbcNode*> byId; int nextId=1; CbcNode* cur=nullptr; bool isOut=false, hasKid=false; DiverCompare* dc=nullptr; CbcCompareBase* cmp=nullptr; std::string kind; CbcCompareBase* inst=nullptr;
  Run(const json& j, FILE* f) : J(j) { log.f=f; }
  void obs(json& e) {
    e["size"]=tree->size(); e["empty"]=tree->empty(); double b=tree->getBestPossibleObjective(); e["bp"]= tree->empty()?0.:b;
    if (auto* d=dynamic_cast<CbcDfsDiver*>(tree)) e["mode"]=(int)d->getComparisonMode(); else e["mode"]=-1;
    if (tree->empty() || e["mode"]==0) e["top"]=0; else e["top"]=id.count(tree->top())?id[tree->top()]:-1;
  }
  CbcNode* mk(double obj,double guess,int depth) {
    CbcNode* n=new CbcNode; n->setObjectiveValue(obj); n->setGuessedObjectiveValue(guess); n->setDepth(depth); n->setNumberUnsatisfied(1); n->setActive(true); n->setBranchingObject(new BObj(&model));
    CbcNodeInfo* inf=new CbcFullNodeInfo(&model, model.solver()->getNumRows()); inf->initializeInfo(2); inf->nullOwner(); n->nodeInfo_=inf; id[n]=nextId; byId[nextId]=n; nextId++; return n; }
  void setup() {
    OsiClpSolverInterface si; double one=1; CoinPackedMatrix m; m.setDimensions(0,1); int c0=0; CoinPackedVector r(1,&c0,&one); m.appendRow(r); double lb=0,ub=10,obj=1,rl=0,ru=10; si.loadProblem(m,&lb,&ub,&obj,&rl,&ru); si.setInteger(0); si.messageHandler()->setLogLevel(0); si.initialSolve();
    model.assignSolver(*(new OsiSolverInterface*(si.clone()))); model.setLogLevel(0); model.findIntegers(false); model.walkback_=new CbcNodeInfo*[100]; model.lastNodeInfo_=new CbcNodeInfo*[100]; model.lastNumberCuts_=new int[100]; model.maximumDepth_=100; model.lastDepth_=0; model.maximumNumberCuts_=100; model.addedCuts_=new CbcCountRowCut*[100](); model.lastCut_=new const OsiRowCut*[100](); model.numberRowsAtContinuous_=model.solver()->getNumRows();
    kind=J["kind"]; BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString(J.value("opts",std::string())); 
    if (kind=="heap") tree=new CbcTree; else if (kind=="dive") { CbcDiver d; d.initialize(b); tree=new CbcDiver(d); } else if (kind=="probed") { CbcProbedDiver d; d.initialize(b); tree=new CbcProbedDiver(d); } else { CbcDfsDiver d; d.initialize(b); tree=new CbcDfsDiver(d); }
    std::string c=J.value("cmp",std::string("bound")); CbcCompareBase* base; if (c=="bound") base=new CbcCompareObjective; else base=new CbcCompareDepth;
    if (kind=="dfsdyn") { CbcCompareObjective co; CbcCompareDepth cd; dc=new DiverCompare; dc->setDiver(dynamic_cast<CbcDfsDiver*>(tree)); dc->setComparisonDive(*base); dc->setComparisonBound(co); dc->setNumberSolToStopDive(J.value("nsol",5)); dc->setNumberNodesToLimitTreeSize(J.value("nlim",1000000)); cmp=dc; }
    else cmp=base;
    tree->setComparison(*cmp);
    json e; e["ev"]="start"; e["kind"]=kind; e["cmp"]=c; e["stop"]=J.value("stop",false); e["maxDepth"]=J.value("maxDepth",1000000); e["maxBack"]=J.value("maxBack",5); e["nsol"]=J.value("nsol",5); e["nlim"]=J.value("nlim",1000000); obs(e); log.put(e);
  }
  void reseat(CbcTree* t) { tree=t; if (dc) { dc->setDiver(dynamic_cast<CbcDfsDiver*>(t)); } tree->setComparison(*cmp); }
  void go() {
    setup();
    for (auto& op : J["ops"]) {
      std::string o=op[0]; json e; e["ev"]=o;
      if (o=="child") { if (cur ? (!isOut || hasKid) : nextId>1) continue; hasKid=true; int d= cur? cur->depth()+1:0; CbcNode* n=mk(op[1],op[2],d); e["id"]=id[n]; e["obj"]=op[1]; e["guess"]=op[2]; e["depth"]=d; tree->push(n); }
      else if (o=="back") { if (!cur || !isOut || cur->branchingObject()->numberBranchesLeft()==0) continue; isOut=false; e["id"]=id[cur]; CbcNode* c=cur; tree->push(c); }
      else if (o=="best") { double cut=op[1]; if (tree->empty()) continue; CbcNode* n=tree->bestNode(cut); e["cut"]=cut; e["id"]= n? (id.count(n)?id[n]:-1):0; if (n && id.count(n)) { n->modifiableBranchingObject()->branch(); n->nodeInfo_->branchedOn(); e["left"]=n->branchingObject()->numberBranchesLeft(); } else e["left"]=0; cur=n; isOut= n!=NULL; hasKid=false; }
      else if (o=="clean") { double cut=op[1], best=1e100; std::set<CbcNode*> before; tree->cleanTree(&model,cut,best); e["cut"]=cut; e["best"]=best>=1e50?-1:best; }
      else if (o=="newsol") { if (!dc) continue; model.setSolutionCount(op[1]); bool r=dc->newSolution(&model); e["n"]=op[1]; e["resort"]=r; if (r) tree->setComparison(*cmp); }
      else if (o=="every") { if (!dc) continue; bool r=dc->every1000Nodes(&model,op[1]); e["n"]=op[1]; e["resort"]=r; if (r) tree->setComparison(*cmp); }
      else if (o=="pop") { if (tree->empty() || (dynamic_cast<CbcDfsDiver*>(tree) && dynamic_cast<CbcDfsDiver*>(tree)->getComparisonMode()==CbcDfsDiver::Enlarge)) continue; e["id"]=id.count(tree->top())?id[tree->top()]:-1; tree->pop(); }
      else if (o=="copy") { reseat(tree->clone()); }
      else if (o=="assign") { CbcTree* t; if (kind=="dive") { auto* x=new CbcDiver; *x=*dynamic_cast<CbcDiver*>(tree); t=x; } else if (kind=="probed") { auto* x=new CbcProbedDiver; *x=*dynamic_cast<CbcProbedDiver*>(tree); t=x; } else if (kind=="heap") continue; else { auto* x=new CbcDfsDiver; *x=*dynamic_cast<CbcDfsDiver*>(tree); t=x; } reseat(t); e["ev"]="copy"; }
      obs(e); log.put(e);
    }
    // drain: everything still open must come out
    json e; e["ev"]="drain"; std::vector<int> out; int guard=0; while (!tree->empty() && guard++<1000) { CbcNode* n=tree->bestNode(1e90); if (!n) { out.push_back(0); break; } out.push_back(id.count(n)?id[n]:-1); } e["out"]=out; e["size"]=tree->size(); log.put(e);
  }
};
int main(int argc,char**argv){ std::string line; FILE* out=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3; if(!getenv("VP_STDERR")) if(!freopen("/dev/null","w",stderr)) return 3;
  while (std::getline(std::cin,line)) { if(line.empty()) continue; json J=json::parse(line);
    runChild([&](FILE* f){ Run r(J,f); r.go(); fflush(f); _exit(0); }, out, J.value("timeout",20), J["job"].get<std::string>()); }
  return 0; }
