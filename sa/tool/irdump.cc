// irdump: LLVM IR (produced by clang -O0 -g from /repo's sources) -> compact JSON facts.
// Usage: irdump IN.bc OUT.json ROOT
//   ROOT: path prefix; functions whose DISubprogram file is under ROOT are dumped with bodies
//   ("full"); every other defined function is dumped only as a summary of its calls/throws.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
namespace js = llvm::json;

static std::string tyStr(Type* t) {
    std::string s; raw_string_ostream o(s);
    if (auto* st = dyn_cast<StructType>(t)) { if (st->hasName()) { o << "%" << st->getName(); return o.str(); } }
    t->print(o, false, true);
    return o.str();
}
struct Dumper {
    Module& M; const DataLayout& DL; std::string root;
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bbs;
    std::set<const GlobalVariable*> usedGlobals;
    std::map<std::string, int> fileIdx; std::vector<std::string> files;
    int fileId(const std::string& f) { auto it = fileIdx.find(f); if (it != fileIdx.end()) return it->second;
        int k = files.size(); files.push_back(f); fileIdx[f] = k; return k; }
    bool skipSys = false;
    Dumper(Module& m, std::string r) : M(m), DL(m.getDataLayout()), root(r) {}

    js::Value constant(const Constant* c, int depth = 0) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() <= 64) return js::Array{"i", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
            SmallString<40> s; ci->getValue().toStringSigned(s); return js::Array{"I", std::string(s), (int64_t)ci->getBitWidth()};
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APFloat v = cf->getValueAPF(); bool li;
            v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            char buf[64]; snprintf(buf, sizeof buf, "%.17g", v.convertToDouble());
            return js::Array{"f", std::string(buf)};
        }
        if (isa<ConstantPointerNull>(c)) return js::Array{"n"};
        if (isa<UndefValue>(c)) return js::Array{"u"};
        if (auto* f = dyn_cast<Function>(c)) return js::Array{"g", f->getName().str()};
        if (auto* g = dyn_cast<GlobalVariable>(c)) { usedGlobals.insert(g); return js::Array{"g", g->getName().str()}; }
        if (auto* al = dyn_cast<GlobalAlias>(c)) return constant(cast<Constant>(al->getAliasee()), depth);
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (ce->getOpcode() == Instruction::GetElementPtr) {
                APInt off(DL.getIndexTypeSizeInBits(ce->getType()), 0);
                if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) {
                    js::Array a{"go"}; a.push_back(constant(cast<Constant>(ce->getOperand(0)), depth + 1));
                    a.push_back(off.getSExtValue()); return a;
                }
            }
            js::Array a{"ce", std::string(ce->getOpcodeName())};
            for (unsigned i = 0; i < ce->getNumOperands(); ++i) a.push_back(constant(ce->getOperand(i), depth + 1));
            return a;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            if (cd->isString()) return js::Array{"s", js::fixUTF8(cd->getAsString())};
            js::Array a{"a"}; js::Array e;
            for (unsigned i = 0; i < cd->getNumElements(); ++i) e.push_back(constant(cd->getElementAsConstant(i), depth + 1));
            a.push_back(std::move(e)); return a;
        }
        if (isa<ConstantAggregate>(c)) {
            js::Array a{"a"}; js::Array e;
            for (unsigned i = 0; i < c->getNumOperands(); ++i) e.push_back(constant(cast<Constant>(c->getOperand(i)), depth + 1));
            a.push_back(std::move(e)); return a;
        }
        if (isa<ConstantAggregateZero>(c)) return js::Array{"z", tyStr(c->getType())};
        return js::Array{"?"};
    }
    js::Value op(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        if (auto* a = dyn_cast<Argument>(v)) return js::Array{"p", (int64_t)a->getArgNo()};
        if (auto* b = dyn_cast<BasicBlock>(v)) return js::Array{"b", bbs[b]};
        auto it = ids.find(v);
        if (it != ids.end()) return js::Array{"%", it->second};
        return js::Array{"?"};
    }
    js::Object instr(const Instruction& I) {
        js::Object o;
        o["o"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) { o["i"] = ids[&I]; o["t"] = tyStr(I.getType()); }
        if (const DebugLoc& d = I.getDebugLoc()) o["l"] = (int64_t)d.getLine();
        auto setOps = [&](unsigned b, unsigned e) { js::Array a; for (unsigned i = b; i < e; ++i) a.push_back(op(I.getOperand(i))); o["a"] = std::move(a); };
        if (auto* cb = dyn_cast<CallBase>(&I)) {
            js::Array a; for (auto& u : cb->args()) a.push_back(op(u.get()));
            o["a"] = std::move(a);
            const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto* f = dyn_cast<Function>(cv)) o["c"] = f->getName().str();
            else { o["ci"] = op(cv); auto vc = vclass.find(cb); if (vc != vclass.end()) o["vc"] = vc->second; std::string s; raw_string_ostream os(s); cb->getFunctionType()->print(os); o["cft"] = os.str(); }
            if (cb->doesNotThrow()) o["nu"] = true;
            if (cb->doesNotReturn()) o["nr"] = true;
            js::Array sr; bool any = false;
            for (unsigned k = 0; k < cb->arg_size(); ++k) if (cb->paramHasAttr(k, Attribute::StructRet)) { sr.push_back((int64_t)k); any = true; }
            if (any) o["sret"] = std::move(sr);
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["nd"] = bbs[iv->getNormalDest()]; o["ud"] = bbs[iv->getUnwindDest()]; }
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            js::Array s; for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back(bbs[br->getSuccessor(i)]);
            o["s"] = std::move(s);
            if (br->isConditional()) { js::Array a; a.push_back(op(br->getCondition())); o["a"] = std::move(a); }
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            js::Array a; a.push_back(op(sw->getCondition())); o["a"] = std::move(a);
            o["d"] = bbs[sw->getDefaultDest()];
            js::Array cs; for (auto& c : sw->cases()) { js::Array p; p.push_back(c.getCaseValue()->getSExtValue()); p.push_back(bbs[c.getCaseSuccessor()]); cs.push_back(std::move(p)); }
            o["cases"] = std::move(cs);
        } else if (auto* ph = dyn_cast<PHINode>(&I)) {
            js::Array a; for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) { js::Array p; p.push_back(op(ph->getIncomingValue(i))); p.push_back(bbs[ph->getIncomingBlock(i)]); a.push_back(std::move(p)); }
            o["in"] = std::move(a);
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            js::Array a; a.push_back(op(g->getPointerOperand())); 
            unsigned bw = DL.getIndexSizeInBits(0);
            MapVector<Value*, APInt> vars; APInt c(bw, 0);
            if (g->collectOffset(DL, bw, vars, c)) {
                o["off"] = c.getSExtValue();
                js::Array vs; for (auto& kv : vars) { js::Array p; p.push_back(op(kv.first)); p.push_back(kv.second.getSExtValue()); vs.push_back(std::move(p)); }
                if (!vs.empty()) o["var"] = std::move(vs);
            } else o["off"] = nullptr;
            o["st"] = tyStr(g->getSourceElementType());
            o["a"] = std::move(a);
        } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
            o["at"] = tyStr(al->getAllocatedType());
            if (al->getAllocatedType()->isSized()) o["sz"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            if (al->hasName()) o["n"] = al->getName().str();
        } else if (auto* c = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); setOps(0, 2);
            o["ot"] = tyStr(c->getOperand(0)->getType());
        } else if (auto* ex = dyn_cast<ExtractValueInst>(&I)) {
            setOps(0, 1); js::Array x; for (auto k : ex->indices()) x.push_back((int64_t)k); o["x"] = std::move(x);
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
            setOps(0, 2); js::Array x; for (auto k : iv->indices()) x.push_back((int64_t)k); o["x"] = std::move(x);
        } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = lp->isCleanup();
            js::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); ++k) { js::Array p; p.push_back(lp->isCatch(k) ? "catch" : "filter"); p.push_back(constant(lp->getClause(k))); cl.push_back(std::move(p)); }
            o["clauses"] = std::move(cl);
        } else {
            setOps(0, I.getNumOperands());
            if (auto* ld = dyn_cast<LoadInst>(&I)) o["sz"] = (int64_t)DL.getTypeStoreSize(ld->getType()).getFixedValue();
            if (auto* st = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); o["vt"] = tyStr(st->getValueOperand()->getType()); }
            if (isa<CastInst>(&I)) o["ot"] = tyStr(I.getOperand(0)->getType());
        }
        return o;
    }
    std::string scopeName(const DIScope* s) {
        std::string r;
        while (s) {
            if (isa<DINamespace>(s) || isa<DICompositeType>(s)) { std::string n = s->getName().str(); if (n.empty()) n = "(anonymous)"; r = r.empty() ? n : n + "::" + r; }
            if (isa<DISubprogram>(s) || isa<DILexicalBlockBase>(s)) { r = "(local)::" + r; break; }
            s = s->getScope();
        }
        return r;
    }
    std::string diTy(const DIType* t, int depth = 0) {
        if (!t) return "void";
        if (depth > 12) return "...";
        if (auto* d = dyn_cast<DIDerivedType>(t)) {
            std::string b = diTy(d->getBaseType(), depth + 1);
            switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return b + "*";
            case dwarf::DW_TAG_reference_type: return b + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
            case dwarf::DW_TAG_const_type: return "const " + b;
            case dwarf::DW_TAG_typedef: { std::string sc = scopeName(d->getScope()); return sc.empty() ? d->getName().str() : sc + "::" + d->getName().str(); }
            case dwarf::DW_TAG_ptr_to_member_type: return b + " memptr";
            default: return b;
            }
        }
        if (auto* c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() == dwarf::DW_TAG_array_type) {
                std::string s = diTy(c->getBaseType(), depth + 1);
                for (auto* e : c->getElements()) if (auto* sr = dyn_cast_or_null<DISubrange>(e)) { if (auto* ci = dyn_cast_if_present<ConstantInt*>(sr->getCount())) s += "[" + std::to_string(ci->getSExtValue()) + "]"; else s += "[]"; }
                return s;
            }
            return scopeName(c);
        }
        if (isa<DISubroutineType>(t)) return "fn";
        return t->getName().str();
    }
    std::string spFile(const DISubprogram* sp) {
        if (!sp || !sp->getFile()) return "";
        std::string f = sp->getFile()->getFilename().str(), d = sp->getFile()->getDirectory().str();
        if (!f.empty() && f[0] != '/') f = d + "/" + f;
        return f;
    }
    js::Object function(Function& F, bool full) {
        js::Object o;
        o["name"] = F.getName().str();
        o["dem"] = demangle(F.getName().str());
        const DISubprogram* sp = F.getSubprogram();
        std::string file = spFile(sp);
        if (sp) { o["file"] = file; o["line"] = (int64_t)sp->getLine();
            if (auto* dc = sp->getDeclaration()) sp = dc;
            o["qual"] = scopeName(sp->getScope()) + "::" + sp->getName().str();
            if (sp->getFlags() & DINode::FlagStaticMember) o["static"] = true;
            if (sp->getFlags() & DINode::FlagPrivate && (sp->getFlags() & DINode::FlagAccessibility) == DINode::FlagPrivate) o["access"] = "private";
        }
        if (F.doesNotThrow()) o["nounwind"] = true;
        if (F.hasLocalLinkage()) o["internal"] = true;
        o["ret"] = tyStr(F.getReturnType());
        const DISubprogram* fs = F.getSubprogram();
        if (fs && fs->getType()) { js::Array ta; for (auto* t : fs->getType()->getTypeArray()) ta.push_back(diTy(t)); o["dity"] = std::move(ta); }
        js::Array args;
        ids.clear(); bbs.clear(); int n = 0, b = 0;
        std::map<const Value*, std::string> names;
        std::map<unsigned, std::string> argNames;
        for (auto& BB : F) { bbs[&BB] = b++; for (auto& I : BB) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
        js::Object vn, vt;
        for (auto& I : instructions(F)) if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
            auto* var = dv->getVariable();
            for (Value* loc : dv->location_ops()) {
                if (!loc) continue;
                if (auto* a = dyn_cast<Argument>(loc)) { if (var->getArg() > 0) argNames[a->getArgNo()] = var->getName().str(); }
                else { auto it = ids.find(loc); if (it != ids.end()) { std::string k = std::to_string(it->second); if (!vn.get(k)) { vn[k] = var->getName().str(); vt[k] = diTy(var->getType()); } } }
            }
        }
        for (auto& A : F.args()) { js::Object ao; auto it = argNames.find(A.getArgNo()); ao["n"] = it != argNames.end() ? it->second : A.getName().str(); ao["t"] = tyStr(A.getType()); if (A.hasStructRetAttr()) ao["sret"] = true; args.push_back(std::move(ao)); }
        o["args"] = std::move(args);
        if (full) {
            o["vn"] = std::move(vn); o["vt"] = std::move(vt);
            js::Array bl;
            for (auto& BB : F) {
                js::Array is;
                for (auto& I : BB) { if (isa<DbgInfoIntrinsic>(&I)) continue; is.push_back(instr(I)); }
                bl.push_back(std::move(is));
            }
            o["blocks"] = std::move(bl);
        }
        {
            // summary for exception analysis: callees that are called with call (escape) or invoked with a catch, throws
            js::Array calls;
            for (auto& I : instructions(F)) {
                auto* cb = dyn_cast<CallBase>(&I); if (!cb || isa<DbgInfoIntrinsic>(cb)) continue;
                if (isa<IntrinsicInst>(cb)) continue;
                js::Object c;
                const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto* f = dyn_cast<Function>(cv)) c["c"] = f->getName().str(); else c["c"] = nullptr;
                if (cb->doesNotThrow()) c["nu"] = true;
                if (isa<InvokeInst>(cb)) c["inv"] = true;
                if (auto* f = dyn_cast<Function>(cv)) if (f->getName() == "__cxa_throw" && cb->arg_size() > 1) c["ti"] = constant(cast<Constant>(cb->getArgOperand(1)));
                // constant function arguments (callbacks)
                js::Array fa; bool any = false;
                for (auto& u : cb->args()) if (auto* f = dyn_cast<Function>(u->stripPointerCasts())) { fa.push_back(f->getName().str()); any = true; }
                if (any) c["fa"] = std::move(fa);
                calls.push_back(std::move(c));
            }
            o["calls"] = std::move(calls);
            bool catchAll = false, hasResume = false;
            for (auto& I : instructions(F)) { if (auto* lp = dyn_cast<LandingPadInst>(&I)) for (unsigned k = 0; k < lp->getNumClauses(); ++k) if (lp->isCatch(k) && isa<ConstantPointerNull>(lp->getClause(k))) catchAll = true; if (isa<ResumeInst>(&I)) hasResume = true; }
            o["catchall"] = catchAll; o["resume"] = hasResume;
        }
        return o;
    }
    // classes of virtual calls, from the type tests of vtables (removed afterwards)
    std::map<const Value*, std::string> vclass;
    void typeTests() {
        std::vector<Instruction*> dead;
        for (auto& F : M) for (auto& I : instructions(F)) {
            auto* cb = dyn_cast<CallInst>(&I); auto* f = cb ? cb->getCalledFunction() : nullptr;
            if (!f || !(f->getName() == "llvm.type.test" || f->getName() == "llvm.public.type.test")) continue;
            std::string cls;
            if (auto* mv = dyn_cast<MetadataAsValue>(cb->getArgOperand(1))) if (auto* ms = dyn_cast<MDString>(mv->getMetadata())) cls = demangle(ms->getString().str());
            if (cls.rfind("typeinfo name for ", 0) == 0) cls = cls.substr(18);
            for (auto* u : cb->getArgOperand(0)->users()) {
                std::vector<const User*> ls{u}; if (isa<GetElementPtrInst>(u)) for (auto* v : u->users()) ls.push_back(v);
                for (auto* l : ls) if (isa<LoadInst>(l)) for (auto* c : l->users()) if (auto* call = dyn_cast<CallBase>(c)) if (call->getCalledOperand() == l) vclass[call] = cls;
            }
            for (auto* u : cb->users()) if (auto* a = dyn_cast<CallInst>(u)) dead.push_back(a);
            dead.push_back(cb);
        }
        for (auto* d : dead) d->eraseFromParent();
    }
    js::Value run() {
        typeTests();
        js::Object out;
        js::Array fs, decls;
        for (auto& F : M) {
            if (F.isDeclaration()) {
                if (F.isIntrinsic()) continue;
                js::Object d; d["name"] = F.getName().str(); d["dem"] = demangle(F.getName().str()); if (F.doesNotThrow()) d["nounwind"] = true; if (F.doesNotReturn()) d["noreturn"] = true; decls.push_back(std::move(d)); continue; }
            std::string file = spFile(F.getSubprogram());
            bool repo = !file.empty() && file.compare(0, root.size(), root) == 0;
            bool full = repo || (F.getInstructionCount() <= 120 && !skipSys);
            if (!repo && skipSys) full = false;
            // lambdas and instantiations declared in repo files are "full" by file; compiler generated ones (no file) inherit "summary"
            js::Object fo = function(F, full); fo["repo"] = repo; fs.push_back(std::move(fo));
        }
        out["functions"] = std::move(fs); out["decls"] = std::move(decls);
        js::Object types;
        DebugInfoFinder dif; dif.processModule(M);
        for (auto* t : dif.types()) if (auto* c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_enumeration_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
            if (c->isForwardDecl()) continue;
            std::string f; if (c->getFile()) { f = c->getFile()->getFilename().str(); if (!f.empty() && f[0] != '/') f = c->getFile()->getDirectory().str() + "/" + f; }
            if (f.compare(0, root.size(), root) != 0 && c->getName().find("GDAL") != 0) continue;
            js::Object o; o["file"] = f; o["line"] = (int64_t)c->getLine(); o["size"] = (int64_t)(c->getSizeInBits() / 8);
            js::Array ms, bs, es, mths;
            for (auto* e : c->getElements()) {
                if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) {
                    if (d->getTag() == dwarf::DW_TAG_member) { js::Object m; m["n"] = d->getName().str(); m["off"] = (int64_t)(d->getOffsetInBits() / 8); m["size"] = (int64_t)(d->getSizeInBits() / 8); m["t"] = diTy(d->getBaseType()); if (d->isStaticMember()) m["static"] = true; m["line"] = (int64_t)d->getLine(); ms.push_back(std::move(m)); }
                    if (d->getTag() == dwarf::DW_TAG_inheritance) { js::Object m; m["t"] = diTy(d->getBaseType()); m["off"] = (int64_t)(d->getOffsetInBits() / 8); bs.push_back(std::move(m)); }
                } else if (auto* en = dyn_cast_or_null<DIEnumerator>(e)) { js::Array p; p.push_back(en->getName().str()); p.push_back(en->getValue().getSExtValue()); es.push_back(std::move(p)); }
                else if (auto* sp = dyn_cast_or_null<DISubprogram>(e)) { js::Object m; m["n"] = sp->getName().str(); m["link"] = sp->getLinkageName().str(); m["virt"] = sp->getVirtuality() != 0; m["idx"] = (int64_t)sp->getVirtualIndex(); auto acc = sp->getFlags() & DINode::FlagAccessibility; m["acc"] = acc == DINode::FlagPrivate ? "private" : acc == DINode::FlagProtected ? "protected" : "public"; mths.push_back(std::move(m)); }
            }
            o["members"] = std::move(ms); o["bases"] = std::move(bs); o["enums"] = std::move(es); o["methods"] = std::move(mths);
            o["tag"] = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "class";
            types[scopeName(c)] = std::move(o);
        }
        out["types"] = std::move(types);
        // globals: iterate to fixpoint because initialisers refer to others
        js::Object gl; std::set<const GlobalVariable*> done;
        for (auto& G : M.globals()) if (G.getName().starts_with("_ZTV") || !G.isConstant() || G.hasExternalLinkage()) usedGlobals.insert(&G);
        bool ch = true;
        while (ch) { ch = false; auto cur = usedGlobals;
            for (auto* G : cur) { if (!done.insert(G).second) continue; ch = true;
                js::Object o; o["const"] = G->isConstant(); o["t"] = tyStr(G->getValueType()); o["tl"] = G->isThreadLocal();
                if (G->hasInitializer()) o["init"] = constant(G->getInitializer()); else o["ext"] = true;
                o["dem"] = demangle(G->getName().str());
                SmallVector<DIGlobalVariableExpression*, 1> ge; G->getDebugInfo(ge);
                if (!ge.empty()) { auto* v = ge[0]->getVariable(); std::string f; if (v->getFile()) { f = v->getFile()->getFilename().str(); if (!f.empty() && f[0] != '/') f = v->getFile()->getDirectory().str() + "/" + f; } o["file"] = f; o["line"] = (int64_t)v->getLine(); o["dit"] = diTy(v->getType()); o["dn"] = v->getName().str(); }
                gl[G->getName().str()] = std::move(o);
            } }
        out["globals"] = std::move(gl);
        return out;
    }
};
int main(int argc, char** argv) {
    if (argc < 4) { errs() << "usage: irdump IN OUT ROOT\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, argc > 4 ? argv[4] : "function(sroa)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    Dumper d(*M, argv[3]);
    if (argc > 5 && std::string(argv[5]) == "skipsys") d.skipSys = true;
    js::Value v = d.run();
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << v;
    return 0;
}
