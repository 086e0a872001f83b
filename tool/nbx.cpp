// nbx: normalise a linked LLVM module of drons/nbody and export it as JSON for the analyses in /verif/lib.
// It never executes the analysed code: it only parses bitcode, runs LLVM's semantics-preserving
// normalisation passes (inlining, SSA construction, simplification) and prints the result.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Metadata.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace llvm;

static cl::opt<std::string> Input(cl::Positional, cl::Required);
static cl::opt<std::string> Output("o", cl::Required);
static cl::opt<std::string> Root("root", cl::init("/repo/"));
static cl::opt<bool> NoInline("no-inline", cl::init(false));
static cl::list<std::string> Keep("keep", cl::CommaSeparated, cl::desc("functions that stay calls"));
static cl::opt<bool> All("all", cl::init(false), cl::desc("export every defined function"));
static cl::opt<bool> DumpIR("dump", cl::init(false));
static cl::opt<std::string> PipelineA("pa", cl::init("lowerinvoke,function(simplifycfg,sroa,early-cse)"));
static cl::opt<std::string> PipelineB("pb", cl::init(
	"always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,sccp,instcombine,jump-threading,correlated-propagation,simplifycfg,"
	"early-cse<memssa>,gvn<no-pre;no-load-pre>,instcombine,sroa<modify-cfg>,sccp,jump-threading,correlated-propagation,simplifycfg,gvn<no-pre;no-load-pre>,instcombine,simplifycfg,"
	"loop-simplify,lcssa,loop-mssa(licm),gvn<no-pre;no-load-pre>,instcombine,simplifycfg,adce,loop-simplify,lcssa)"));

static std::string subFile(const DISubprogram* sp)
{
	if(!sp) { return ""; }
	std::string dir = sp->getDirectory().str();
	std::string fn = sp->getFilename().str();
	if(!fn.empty() && fn[0] == '/') { return fn; }
	return dir + "/" + fn;
}

static bool isRepo(const Function& f)
{
	const DISubprogram* sp = f.getSubprogram();
	if(!sp)
	{
		return f.getName().contains(".omp_outlined") || f.getName().contains(".omp_task");
	}
	return StringRef(subFile(sp)).starts_with(Root);
}

static bool isStdAccessor(const std::string& d)
{
	static const char* const pats[] =
	{
		"::operator[](", "::size() const", "::begin()", "::end()", "::begin() const", "::end() const",
		"::data()", "::data() const", "::back()", "::front()", "::back() const", "::front() const",
		"::empty() const", "::cbegin() const", "::cend() const", "::_M_data_ptr<", "::at(", "::_M_range_check",
	};
	if(StringRef(d).contains("std::map") || StringRef(d).contains("_Rb_tree")) { return false; }
	if(StringRef(d).contains("std::vector<"))
	{
		for(const char* p : pats)
		{
			if(StringRef(d).contains(p)) { return StringRef(p) != "::at(" || true; }
		}
	}
	if(StringRef(d).contains("__normal_iterator<")) { return true; }
	return false;
}

static bool isStdFree(const Function& f, const std::string& d)
{
	(void)f;
	StringRef s(d);
	if(s.contains("std::swap<") && !s.contains("std::vector<")) { return true; }
	for(const char* p : {"std::min<", "std::max<", "std::forward<", "std::move<", "std::fabs(", "std::abs(", "std::sqrt(", "std::numeric_limits<", "std::make_pair<", "std::pair<",
		"std::copy<", "std::copy_n<", "std::__copy_", "std::__miter_base", "std::__niter_", "std::fill<", "std::fill_n<", "std::__fill_", "std::transform<", "std::accumulate<", "std::inner_product<", "std::for_each<",
		"std::distance<", "std::__distance<", "std::__iterator_category<", "std::next<", "std::advance<", "std::__advance<", "std::__copy_move", "std::__size_to_integer", "std::pow<", "std::max_element<", "std::__max_element<"})
	{
		size_t at = s.find(p);
		if(at != StringRef::npos && at < 60 && !s.contains("std::vector<std::pair")) { return true; }
	}
	return false;
}

static void prepareInline(Module& m)
{
	CallGraph cg(m);
	std::set<const Function*> recursive;
	for(scc_iterator<CallGraph*> it = scc_begin(&cg); !it.isAtEnd(); ++it)
	{
		if(it.hasCycle())
		{
			for(CallGraphNode* n : *it)
			{
				if(n->getFunction()) { recursive.insert(n->getFunction()); }
			}
		}
	}
	for(Function& f : m)
	{
		if(f.isDeclaration()) { continue; }
		f.removeFnAttr(Attribute::OptimizeNone);
		f.removeFnAttr(Attribute::NoInline);
		f.removeFnAttr(Attribute::AlwaysInline);
		std::string d = demangle(f.getName().str());
		bool	inl = false;
		if(!NoInline && !recursive.count(&f))
		{
			inl = isRepo(f) || isStdAccessor(d) || isStdFree(f, d);
		}
		for(const std::string& k : Keep)
		{
			if(StringRef(d).starts_with(k + "(")) { inl = false; }
		}
		if(f.getName().contains(".omp_outlined") || f.getName().contains(".omp_task_entry")) { inl = false; }
		if(inl)
		{
			f.addFnAttr(Attribute::AlwaysInline);
		}
		else
		{
			f.addFnAttr(Attribute::NoInline);
		}
	}
}

static void runPipeline(Module& m, StringRef text)
{
	PassBuilder pb;
	LoopAnalysisManager lam;
	FunctionAnalysisManager fam;
	CGSCCAnalysisManager cgam;
	ModuleAnalysisManager mam;
	pb.registerModuleAnalyses(mam);
	pb.registerCGSCCAnalyses(cgam);
	pb.registerFunctionAnalyses(fam);
	pb.registerLoopAnalyses(lam);
	pb.crossRegisterProxies(lam, fam, cgam, mam);
	ModulePassManager mpm;
	if(auto err = pb.parsePassPipeline(mpm, text))
	{
		errs() << "bad pipeline: " << toString(std::move(err)) << "\n";
		exit(3);
	}
	mpm.run(m, mam);
}

class Exporter
{
	Module& m;
	const DataLayout& dl;
	json::OStream& o;
	std::unordered_map<const Value*, int> ids;
	std::unordered_map<const BasicBlock*, int> bbs;
public:
	Exporter(Module& m_, json::OStream& o_) : m(m_), dl(m_.getDataLayout()), o(o_) {}

	std::string tyStr(Type* t)
	{
		std::string s;
		raw_string_ostream os(s);
		t->print(os, false, true);
		return os.str();
	}

	void opnd(const Value* v, int depth = 0)
	{
		if(const Argument* a = dyn_cast<Argument>(v))
		{
			o.array([&] { o.value("a"); o.value(int(a->getArgNo())); });
			return;
		}
		if(const Instruction* i = dyn_cast<Instruction>(v))
		{
			o.array([&] { o.value("i"); o.value(ids.count(i) ? ids[i] : -1); });
			return;
		}
		if(const ConstantInt* c = dyn_cast<ConstantInt>(v))
		{
			o.array([&]
			{
				o.value("c");
				if(c->getBitWidth() <= 64) { o.value(c->getBitWidth() == 1 ? int64_t(c->getZExtValue()) : c->getSExtValue()); }
				else
				{
					SmallString<64> s;
					c->getValue().toStringSigned(s);
					o.value(StringRef(s));
				}
				o.value(int(c->getBitWidth()));
			});
			return;
		}
		if(const ConstantFP* c = dyn_cast<ConstantFP>(v))
		{
			SmallString<64> s;
			APFloat f = c->getValueAPF();
			bool li = false;
			if(&f.getSemantics() == &APFloat::IEEEsingle()) { f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); }
			char buf[64];
			f.convertToHexString(buf, 0, false, APFloat::rmNearestTiesToEven);
			o.array([&] { o.value("f"); o.value(StringRef(buf)); });
			return;
		}
		if(isa<ConstantPointerNull>(v)) { o.array([&] { o.value("null"); }); return; }
		if(isa<UndefValue>(v)) { o.array([&] { o.value("undef"); }); return; }
		if(isa<ConstantAggregateZero>(v)) { o.array([&] { o.value("zero"); }); return; }
		if(const Function* f = dyn_cast<Function>(v)) { o.array([&] { o.value("fn"); o.value(f->getName()); }); return; }
		if(const GlobalVariable* g = dyn_cast<GlobalVariable>(v)) { o.array([&] { o.value("g"); o.value(g->getName()); }); return; }
		if(const GlobalAlias* g = dyn_cast<GlobalAlias>(v)) { opnd(g->getAliasee(), depth); return; }
		if(const BasicBlock* b = dyn_cast<BasicBlock>(v)) { o.array([&] { o.value("bb"); o.value(bbs[b]); }); return; }
		if(const ConstantExpr* e = dyn_cast<ConstantExpr>(v))
		{
			if(const GEPOperator* g = dyn_cast<GEPOperator>(e))
			{
				APInt off(64, 0);
				if(g->accumulateConstantOffset(dl, off))
				{
					o.array([&] { o.value("gepc"); opnd(g->getPointerOperand(), depth + 1); o.value(off.getSExtValue()); });
					return;
				}
			}
			o.array([&]
			{
				o.value("ce");
				o.value(e->getOpcodeName());
				for(const Use& u : e->operands()) { opnd(u.get(), depth + 1); }
			});
			return;
		}
		if(const ConstantDataSequential* s = dyn_cast<ConstantDataSequential>(v))
		{
			o.array([&]
			{
				o.value("arr");
				for(unsigned n = 0; n != s->getNumElements(); ++n) { opnd(s->getElementAsConstant(n), depth + 1); }
			});
			return;
		}
		if(const ConstantAggregate* s = dyn_cast<ConstantAggregate>(v))
		{
			o.array([&]
			{
				o.value("arr");
				for(const Use& u : s->operands()) { opnd(u.get(), depth + 1); }
			});
			return;
		}
		if(const MetadataAsValue* mv = dyn_cast<MetadataAsValue>(v))
		{
			const MDString* ms = dyn_cast<MDString>(mv->getMetadata());
			o.array([&] { o.value("md"); o.value(ms ? ms->getString() : StringRef("?")); });
			return;
		}
		o.array([&] { o.value("?"); std::string s; raw_string_ostream os(s); v->printAsOperand(os, false, &m); o.value(os.str()); });
	}

	void scev(ScalarEvolution& se, const SCEV* s, int depth = 0)
	{
		if(depth > 40 || isa<SCEVCouldNotCompute>(s)) { o.value(nullptr); return; }
		o.array([&]
		{
			switch(s->getSCEVType())
			{
			case scConstant: o.value("const"); o.value(cast<SCEVConstant>(s)->getAPInt().getSExtValue()); break;
			case scUnknown: o.value("unk"); opnd(cast<SCEVUnknown>(s)->getValue()); break;
			case scAddRecExpr:
			{
				const SCEVAddRecExpr* r = cast<SCEVAddRecExpr>(s);
				// arithmetic in a few bits wraps: not a polynomial of the counter
				if(r->getType()->isIntegerTy() && r->getType()->getIntegerBitWidth() < 32) { o.value("?"); break; }
				o.value("rec");
				o.value(bbs[r->getLoop()->getHeader()]);
				for(const SCEV* x : r->operands()) { scev(se, x, depth + 1); }
				break;
			}
			default:
			{
				const char* n = "?";
				switch(s->getSCEVType())
				{
				case scAddExpr: n = "add"; break;
				case scMulExpr: n = "mul"; break;
				case scUDivExpr: n = "udiv"; break;
				case scTruncate: n = s->getType()->isIntegerTy() && s->getType()->getIntegerBitWidth() < 8 && se.getTypeSizeInBits(cast<SCEVTruncateExpr>(s)->getOperand()->getType()) > 8 ? "?" : "trunc"; break;
				case scZeroExtend: n = "zext"; break;
				case scSignExtend: n = "sext"; break;
				case scPtrToInt: n = "ptrtoint"; break;
				case scUMaxExpr: n = "umax"; break;
				case scSMaxExpr: n = "smax"; break;
				case scUMinExpr: n = "umin"; break;
				case scSMinExpr: n = "smin"; break;
				default: break;
				}
				o.value(n);
				for(const SCEV* x : s->operands()) { scev(se, x, depth + 1); }
			}
			}
		});
	}

	void loc(const Instruction& i)
	{
		const DebugLoc& l = i.getDebugLoc();
		if(!l) { return; }
		const DIScope* sc = cast<DIScope>(l.getScope());
		std::string fn = sc->getFilename().str();
		if(!fn.empty() && fn[0] != '/') { fn = sc->getDirectory().str() + "/" + fn; }
		// Prefer the innermost location inside the repository
		const DILocation* d = l.get();
		while(d && !StringRef(fn).starts_with(Root) && d->getInlinedAt())
		{
			d = d->getInlinedAt();
			fn = d->getFilename().str();
			if(!fn.empty() && fn[0] != '/') { fn = d->getDirectory().str() + "/" + fn; }
		}
		o.attributeArray("loc", [&] { o.value(fn); o.value(int64_t(d->getLine())); });
	}

	void inst(Instruction& i, ScalarEvolution& se)
	{
		o.object([&]
		{
			o.attribute("id", ids[&i]);
			o.attribute("op", i.getOpcodeName());
			if(!i.getType()->isVoidTy()) { o.attribute("ty", tyStr(i.getType())); }
			loc(i);
			if(PHINode* p = dyn_cast<PHINode>(&i))
			{
				o.attributeArray("in", [&]
				{
					for(unsigned n = 0; n != p->getNumIncomingValues(); ++n)
					{
						o.array([&] { o.value(bbs[p->getIncomingBlock(n)]); opnd(p->getIncomingValue(n)); });
					}
				});
			}
			else
			{
				if(CallBase* c = dyn_cast<CallBase>(&i))
				{
					o.attributeArray("ops", [&] { for(const Use& u : c->args()) { opnd(u.get()); } });
					const Value* cv = c->getCalledOperand()->stripPointerCasts();
					if(const GlobalAlias* ga = dyn_cast<GlobalAlias>(cv)) { cv = ga->getAliasee()->stripPointerCasts(); }
					if(const Function* f = dyn_cast<Function>(cv))
					{
						o.attribute("callee", f->getName());
						if(f->isIntrinsic()) { o.attribute("intr", true); }
						if(f->doesNotReturn() || c->doesNotReturn()) { o.attribute("noret", true); }
					}
					else
					{
						o.attributeBegin("target");
						opnd(cv);
						o.attributeEnd();
					}
					bool sret = c->arg_size() > 0 && c->paramHasAttr(0, Attribute::StructRet);
					if(sret) { o.attribute("sret", true); }
				}
				else
				{
					o.attributeArray("ops", [&] { for(const Use& u : i.operands()) { opnd(u.get()); } });
				}
				if(CmpInst* c = dyn_cast<CmpInst>(&i)) { o.attribute("pred", CmpInst::getPredicateName(c->getPredicate())); }
				if(GetElementPtrInst* g = dyn_cast<GetElementPtrInst>(&i))
				{
					o.attribute("sty", tyStr(g->getSourceElementType()));
					MapVector<Value*, APInt> vo;
					APInt co(64, 0);
					if(g->collectOffset(dl, 64, vo, co))
					{
						o.attribute("coff", co.getSExtValue());
						o.attributeArray("voff", [&]
						{
							for(auto& kv : vo) { o.array([&] { opnd(kv.first); o.value(kv.second.getSExtValue()); }); }
						});
					}
				}
				if(AllocaInst* a = dyn_cast<AllocaInst>(&i))
				{
					o.attribute("aty", tyStr(a->getAllocatedType()));
					auto sz = a->getAllocationSize(dl);
					if(sz) { o.attribute("size", int64_t(sz->getFixedValue())); }
					for(DbgDeclareInst* dd : findDbgDeclares(a)) { o.attribute("var", dd->getVariable()->getName()); break; }
				}
				if(LoadInst* l = dyn_cast<LoadInst>(&i))
				{
					if(l->isVolatile()) { o.attribute("vol", true); }
					if(l->isAtomic()) { o.attribute("atomic", true); }
					o.attributeBegin("scev"); scev(se, se.getSCEV(l->getPointerOperand())); o.attributeEnd();
				}
				if(StoreInst* l = dyn_cast<StoreInst>(&i))
				{
					if(l->isVolatile()) { o.attribute("vol", true); }
					if(l->isAtomic()) { o.attribute("atomic", true); }
					o.attribute("sty", tyStr(l->getValueOperand()->getType()));
					o.attributeBegin("scev"); scev(se, se.getSCEV(l->getPointerOperand())); o.attributeEnd();
				}
				if(ExtractValueInst* e = dyn_cast<ExtractValueInst>(&i))
				{
					o.attributeArray("idx", [&] { for(unsigned x : e->indices()) { o.value(int(x)); } });
				}
				if(InsertValueInst* e = dyn_cast<InsertValueInst>(&i))
				{
					o.attributeArray("idx", [&] { for(unsigned x : e->indices()) { o.value(int(x)); } });
				}
				if(SwitchInst* s = dyn_cast<SwitchInst>(&i))
				{
					o.attribute("def", bbs[s->getDefaultDest()]);
					o.attributeArray("cases", [&]
					{
						for(auto& c : s->cases())
						{
							o.array([&] { o.value(c.getCaseValue()->getSExtValue()); o.value(bbs[c.getCaseSuccessor()]); });
						}
					});
				}
				if(AtomicRMWInst* a = dyn_cast<AtomicRMWInst>(&i)) { o.attribute("rmw", AtomicRMWInst::getOperationName(a->getOperation())); }
			}
			if(se.isSCEVable(i.getType()) && !isa<LoadInst>(i) && !isa<CallBase>(i) && !isa<AllocaInst>(i))
			{
				const SCEV* s = se.getSCEV(&i);
				if(!isa<SCEVUnknown>(s)) { o.attributeBegin("sc"); scev(se, s); o.attributeEnd(); }
			}
		});
	}

	void function(Function& f, FunctionAnalysisManager& fam)
	{
		ids.clear();
		bbs.clear();
		int n = 0;
		for(BasicBlock& b : f)
		{
			bbs[&b] = int(bbs.size());
			for(Instruction& i : b) { ids[&i] = n++; }
		}
		DominatorTree& dt = fam.getResult<DominatorTreeAnalysis>(f);
		PostDominatorTree& pdt = fam.getResult<PostDominatorTreeAnalysis>(f);
		LoopInfo& li = fam.getResult<LoopAnalysis>(f);
		ScalarEvolution& se = fam.getResult<ScalarEvolutionAnalysis>(f);
		o.object([&]
		{
			o.attribute("name", f.getName());
			o.attribute("dem", demangle(f.getName().str()));
			if(DISubprogram* sp = f.getSubprogram())
			{
				o.attribute("file", subFile(sp));
				o.attribute("line", int64_t(sp->getLine()));
			}
			o.attribute("local", f.hasLocalLinkage());
			o.attribute("rty", tyStr(f.getReturnType()));
			o.attributeArray("args", [&]
			{
				std::map<unsigned, std::string> nm;
				if(f.getSubprogram())
				{
					for(const Metadata* md : f.getSubprogram()->getRetainedNodes())
					{
						if(const DILocalVariable* lv = dyn_cast<DILocalVariable>(md)) { if(lv->getArg()) { nm[lv->getArg() - 1] = lv->getName().str(); } }
					}
				}
				for(Argument& a : f.args())
				{
					o.object([&]
					{
						o.attribute("ty", tyStr(a.getType()));
						if(a.hasStructRetAttr()) { o.attribute("sret", true); }
						if(a.hasName()) { o.attribute("name", a.getName()); }
					});
				}
			});
			o.attributeArray("blocks", [&]
			{
				for(BasicBlock& b : f)
				{
					o.object([&]
					{
						o.attribute("id", bbs[&b]);
						o.attributeArray("succ", [&] { for(BasicBlock* s : successors(&b)) { o.value(bbs[s]); } });
						if(Loop* l = li.getLoopFor(&b)) { o.attribute("loop", bbs[l->getHeader()]); }
						if(dt.isReachableFromEntry(&b) && dt.getNode(&b)->getIDom()) { o.attribute("idom", bbs[dt.getNode(&b)->getIDom()->getBlock()]); }
						if(pdt.getNode(&b) && pdt.getNode(&b)->getIDom() && pdt.getNode(&b)->getIDom()->getBlock()) { o.attribute("ipdom", bbs[pdt.getNode(&b)->getIDom()->getBlock()]); }
						o.attributeArray("insts", [&]
						{
							for(Instruction& i : b)
							{
								if(isa<DbgInfoIntrinsic>(i)) { continue; }
								if(IntrinsicInst* ii = dyn_cast<IntrinsicInst>(&i)) { if(ii->isLifetimeStartOrEnd()) { continue; } }
								inst(i, se);
							}
						});
					});
				}
			});
			o.attributeArray("loops", [&]
			{
				for(Loop* l : li.getLoopsInPreorder())
				{
					o.object([&]
					{
						o.attribute("header", bbs[l->getHeader()]);
						if(l->getParentLoop()) { o.attribute("parent", bbs[l->getParentLoop()->getHeader()]); }
						if(BasicBlock* p = l->getLoopPreheader()) { o.attribute("pre", bbs[p]); }
						o.attributeArray("blocks", [&] { for(BasicBlock* b : l->blocks()) { o.value(bbs[b]); } });
						SmallVector<BasicBlock*, 4> ex, la;
						l->getExitingBlocks(ex);
						l->getLoopLatches(la);
						o.attributeArray("latches", [&] { for(BasicBlock* b : la) { o.value(bbs[b]); } });
						o.attributeArray("exiting", [&] { for(BasicBlock* b : ex) { o.value(bbs[b]); } });
						o.attributeBegin("btc"); scev(se, se.getBackedgeTakenCount(l)); o.attributeEnd();
						o.attributeArray("exitcounts", [&] { for(BasicBlock* b : ex) { o.array([&] { o.value(bbs[b]); scev(se, se.getExitCount(l, b)); }); } });
					});
				}
			});
		});
	}

	void structs()
	{
		DebugInfoFinder fi;
		fi.processModule(m);
		o.attributeArray("structs", [&]
		{
			for(DIType* t : fi.types())
			{
				DICompositeType* c = dyn_cast<DICompositeType>(t);
				if(!c || c->isForwardDecl()) { continue; }
				if(c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) { continue; }
				std::string nm = c->getName().str();
				const DIScope* sc = c->getScope();
				while(sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc))
				{
					if(!sc->getName().empty() && !isa<DISubprogram>(sc)) { nm = sc->getName().str() + "::" + nm; }
					sc = sc->getScope();
				}
				o.object([&]
				{
					o.attribute("name", nm);
					o.attribute("id", c->getIdentifier());
					o.attribute("size", int64_t(c->getSizeInBits() / 8));
					o.attribute("file", c->getFilename());
					o.attributeArray("fields", [&]
					{
						for(const DINode* e : c->getElements())
						{
							const DIDerivedType* d = dyn_cast_or_null<DIDerivedType>(e);
							if(!d || d->isStaticMember()) { continue; }
							if(d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) { continue; }
							std::string tn;
							uint64_t sz = 0;
							if(const DIType* bt = d->getBaseType())
							{
								tn = typeName(bt);
								sz = (d->getTag() == dwarf::DW_TAG_member ? d->getSizeInBits() : bt->getSizeInBits()) / 8;
							}
							o.object([&]
							{
								o.attribute("off", int64_t(d->getOffsetInBits() / 8));
								o.attribute("name", d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName());
								o.attribute("type", tn);
								o.attribute("size", int64_t(sz));
							});
						}
					});
				});
			}
		});
	}

	std::string typeName(const DIType* t, int depth = 0)
	{
		if(!t) { return "void"; }
		if(depth > 12) { return "?"; }
		if(const DIDerivedType* d = dyn_cast<DIDerivedType>(t))
		{
			switch(d->getTag())
			{
			case dwarf::DW_TAG_pointer_type: return typeName(d->getBaseType(), depth + 1) + "*";
			case dwarf::DW_TAG_reference_type: return typeName(d->getBaseType(), depth + 1) + "&";
			case dwarf::DW_TAG_const_type: return "const " + typeName(d->getBaseType(), depth + 1);
			case dwarf::DW_TAG_volatile_type: return "volatile " + typeName(d->getBaseType(), depth + 1);
			case dwarf::DW_TAG_typedef: return typeName(d->getBaseType(), depth + 1);
			default: return d->getName().str();
			}
		}
		std::string nm = t->getName().str();
		const DIScope* sc = t->getScope();
		while(sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc))
		{
			if(!sc->getName().empty() && !isa<DISubprogram>(sc)) { nm = sc->getName().str() + "::" + nm; }
			sc = sc->getScope();
		}
		if(nm.empty() && isa<DICompositeType>(t) && t->getTag() == dwarf::DW_TAG_array_type)
		{
			return typeName(cast<DICompositeType>(t)->getBaseType(), depth + 1) + "[]";
		}
		return nm;
	}

	// Signatures of repo functions from debug info: parameter names and types.
	void signatures()
	{
		o.attributeArray("sigs", [&]
		{
			for(Function& f : m)
			{
				DISubprogram* sp = f.getSubprogram();
				if(!sp || !sp->getType()) { continue; }
				if(!StringRef(subFile(sp)).starts_with(Root)) { continue; }
				o.object([&]
				{
					o.attribute("name", f.getName());
					o.attribute("dem", demangle(f.getName().str()));
					o.attribute("virtual", sp->getVirtuality() != 0 || (sp->getDeclaration() && sp->getDeclaration()->getVirtuality() != 0));
					o.attributeArray("types", [&] { for(DIType* t : sp->getType()->getTypeArray()) { o.value(typeName(t)); } });
				});
			}
		});
	}

	void globals()
	{
		o.attributeObject("globals", [&]
		{
			for(GlobalVariable& g : m.globals())
			{
				if(!g.hasInitializer()) { continue; }
				o.attributeObject(g.getName(), [&]
				{
					o.attribute("ty", tyStr(g.getValueType()));
					o.attribute("const", g.isConstant());
					SmallVector<DIGlobalVariableExpression*, 1> dv;
					g.getDebugInfo(dv);
					if(!dv.empty())
					{
						o.attribute("var", dv[0]->getVariable()->getName());
						o.attribute("line", int64_t(dv[0]->getVariable()->getLine()));
						o.attribute("file", dv[0]->getVariable()->getFilename());
					}
					ConstantDataSequential* cs = dyn_cast<ConstantDataSequential>(g.getInitializer());
					if(cs && cs->isString()) { o.attribute("str", json::fixUTF8(cs->isCString() ? cs->getAsCString() : cs->getAsString())); }
					else if(cs && cs->getElementType()->isIntegerTy(16))
					{
						// UTF-16 literal: keep as array of code units
						o.attributeBegin("init"); opnd(cs); o.attributeEnd();
					}
					else { o.attributeBegin("init"); opnd(g.getInitializer()); o.attributeEnd(); }
				});
			}
		});
	}
};

int main(int argc, char** argv)
{
	cl::ParseCommandLineOptions(argc, argv);
	LLVMContext ctx;
	SMDiagnostic err;
	std::unique_ptr<Module> m = parseIRFile(Input, err, ctx);
	if(!m) { err.print("nbx", errs()); return 3; }
	runPipeline(*m, PipelineA);
	prepareInline(*m);
	runPipeline(*m, PipelineB);
	if(verifyModule(*m, &errs())) { return 3; }
	if(DumpIR)
	{
		std::error_code dec;
		raw_fd_ostream d(Output + ".ll", dec);
		m->print(d, nullptr);
	}
	std::error_code ec;
	raw_fd_ostream os(Output, ec);
	if(ec) { errs() << ec.message(); return 3; }
	json::OStream o(os);
	PassBuilder pb;
	LoopAnalysisManager lam;
	FunctionAnalysisManager fam;
	CGSCCAnalysisManager cgam;
	ModuleAnalysisManager mam;
	pb.registerModuleAnalyses(mam);
	pb.registerCGSCCAnalyses(cgam);
	pb.registerFunctionAnalyses(fam);
	pb.registerLoopAnalyses(lam);
	pb.crossRegisterProxies(lam, fam, cgam, mam);
	Exporter e(*m, o);
	o.object([&]
	{
		e.structs();
		e.signatures();
		e.globals();
		o.attributeArray("functions", [&]
		{
			for(Function& f : *m)
			{
				if(f.isDeclaration()) { continue; }
				if(!All && !isRepo(f)) { continue; }
				e.function(f, fam);
			}
		});
	});
	return 0;
}
