// Dumps an LLVM module (bitcode) as JSON with the data layout already applied:
// GEPs become byte offsets, constants become bytes + relocations.  Nothing is interpreted here.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <set>
#include <map>
using namespace llvm;
static const DataLayout* DL;
static Module* M;
static std::set<const GlobalValue*> needed;
static std::vector<const GlobalValue*> work;
static void need(const GlobalValue* g) { if (needed.insert(g).second) work.push_back(g); }

static json::Value type(Type* t) {
	if (t->isVoidTy()) return "void";
	if (t->isPointerTy()) return "ptr";
	if (t->isIntegerTy()) return json::Value(std::string("i") + std::to_string(t->getIntegerBitWidth()));
	if (t->isFloatTy()) return "float";
	if (t->isDoubleTy()) return "double";
	if (t->isX86_FP80Ty()) return "fp80";
	if (auto* s = dyn_cast<StructType>(t)) {
		json::Array el;
		if (!s->isSized()) return "opaque";
		const StructLayout* sl = DL->getStructLayout(s);
		for (unsigned i = 0; i < s->getNumElements(); i++)
			el.push_back(json::Array{ (int64_t)(uint64_t)sl->getElementOffset(i), type(s->getElementType(i)) });
		return json::Object{{"k", "struct"}, {"size", (int64_t)(uint64_t)sl->getSizeInBytes()}, {"el", std::move(el)}};
	}
	if (auto* a = dyn_cast<ArrayType>(t))
		return json::Object{{"k", "array"}, {"n", (int64_t)a->getNumElements()},
			{"es", (int64_t)(uint64_t)DL->getTypeAllocSize(a->getElementType())}, {"t", type(a->getElementType())}};
	if (auto* v = dyn_cast<FixedVectorType>(t))
		return json::Object{{"k", "vec"}, {"n", (int64_t)v->getNumElements()}, {"t", type(v->getElementType())}};
	return "other";
}

struct FnCtx { std::map<const Value*, int> id; };

static json::Value constant(const Constant* c);
static json::Value apintStr(const APInt& v) {
	SmallString<40> s; v.toStringUnsigned(s, 10); return json::Value(std::string(s.str()));
}
static json::Value constant(const Constant* c) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) return json::Object{{"c", "int"}, {"w", (int64_t)ci->getBitWidth()}, {"v", apintStr(ci->getValue())}};
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		APInt bits = cf->getValueAPF().bitcastToAPInt();
		return json::Object{{"c", "fp"}, {"w", (int64_t)bits.getBitWidth()}, {"v", apintStr(bits)}};
	}
	if (isa<ConstantPointerNull>(c)) return json::Object{{"c", "null"}};
	if (isa<UndefValue>(c)) return json::Object{{"c", "undef"}, {"t", type(c->getType())}};
	if (auto* g = dyn_cast<GlobalValue>(c)) { need(g); return json::Object{{"c", "glob"}, {"n", g->getName().str()}, {"o", 0}}; }
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
		json::Array el; for (auto& o : ca->operands()) el.push_back(constant(cast<Constant>(o)));
		return json::Object{{"c", "agg"}, {"t", type(c->getType())}, {"el", std::move(el)}};
	}
	if (isa<ConstantAggregateZero>(c)) return json::Object{{"c", "zero"}, {"t", type(c->getType())}};
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		json::Array el; for (unsigned i = 0; i < cd->getNumElements(); i++) el.push_back(constant(cd->getElementAsConstant(i)));
		return json::Object{{"c", "agg"}, {"t", type(c->getType())}, {"el", std::move(el)}};
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		APInt off(64, 0);
		const Value* base = ce;
		if (ce->getType()->isPointerTy()) {
			base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto* g = dyn_cast<GlobalValue>(base)) { need(g); return json::Object{{"c", "glob"}, {"n", g->getName().str()}, {"o", off.getSExtValue()}}; }
			if (isa<ConstantPointerNull>(base)) return json::Object{{"c", "nulloff"}, {"o", off.getSExtValue()}};
		}
		json::Array ops; for (auto& o : ce->operands()) ops.push_back(constant(cast<Constant>(o)));
		return json::Object{{"c", "expr"}, {"op", ce->getOpcodeName()}, {"ops", std::move(ops)}};
	}
	std::string s; raw_string_ostream os(s); c->print(os);
	return json::Object{{"c", "unknown"}, {"s", os.str()}};
}

static json::Value operand(FnCtx& f, const Value* v) {
	if (auto* c = dyn_cast<Constant>(v)) return constant(c);
	auto it = f.id.find(v);
	if (it != f.id.end()) return (int64_t)it->second;
	return json::Object{{"c", "other"}};
}

static json::Object instr(FnCtx& f, const Instruction& I, std::map<const BasicBlock*, int>& bid) {
	json::Object o{{"op", I.getOpcodeName()}, {"t", type(I.getType())}};
	if (!I.getType()->isVoidTy()) o["id"] = f.id[&I];
	if (auto dl = I.getDebugLoc()) {
		o["ln"] = (int64_t)dl.getLine();
		if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) o["fl"] = sc->getFilename().str();
	}
	if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
		o["base"] = operand(f, g->getPointerOperand());
		MapVector<Value*, APInt> vo; APInt co(64, 0);
		if (!g->collectOffset(*DL, 64, vo, co)) o["bad"] = true;
		o["off"] = co.getSExtValue();
		json::Array va; for (auto& p : vo) va.push_back(json::Array{operand(f, p.first), type(p.first->getType()), p.second.getSExtValue()});
		o["var"] = std::move(va);
		o["inb"] = g->isInBounds();
		return o;
	}
	if (auto* a = dyn_cast<AllocaInst>(&I)) {
		auto sz = a->getAllocationSize(*DL);
		o["size"] = sz ? (int64_t)(uint64_t)*sz : -1;
		return o;
	}
	if (auto* p = dyn_cast<PHINode>(&I)) {
		json::Array in; for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
			in.push_back(json::Array{bid[p->getIncomingBlock(i)], operand(f, p->getIncomingValue(i))});
		o["in"] = std::move(in);
		return o;
	}
	if (auto* cb = dyn_cast<CallBase>(&I)) {
		const Value* callee = cb->getCalledOperand()->stripPointerCasts();
		o["callee"] = operand(f, callee);
		json::Array args, at; for (auto& a : cb->args()) {
			if (isa<MetadataAsValue>(a.get())) { args.push_back(nullptr); at.push_back("meta"); }
			else { args.push_back(operand(f, a.get())); at.push_back(type(a->getType())); }
		}
		o["args"] = std::move(args); o["at"] = std::move(at);
		if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["nd"] = bid[iv->getNormalDest()]; o["ud"] = bid[iv->getUnwindDest()]; }
		for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) {
			if (!o.get("byval")) o["byval"] = json::Array();
			o["byval"].getAsArray()->push_back(json::Array{(int64_t)i, (int64_t)(uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i))});
		}
		return o;
	}
	if (auto* b = dyn_cast<BranchInst>(&I)) {
		if (b->isConditional()) { o["cond"] = operand(f, b->getCondition()); o["d"] = json::Array{bid[b->getSuccessor(0)], bid[b->getSuccessor(1)]}; }
		else o["d"] = json::Array{bid[b->getSuccessor(0)]};
		return o;
	}
	if (auto* s = dyn_cast<SwitchInst>(&I)) {
		o["cond"] = operand(f, s->getCondition());
		o["def"] = bid[s->getDefaultDest()];
		json::Array cs; for (auto& c : s->cases()) cs.push_back(json::Array{apintStr(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]});
		o["cases"] = std::move(cs);
		return o;
	}
	if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
		o["cleanup"] = lp->isCleanup();
		json::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); i++)
			cl.push_back(json::Array{lp->isCatch(i) ? "catch" : "filter", constant(lp->getClause(i))});
		o["cl"] = std::move(cl);
		return o;
	}
	json::Array ops; json::Array ot;
	for (auto& op : I.operands()) { ops.push_back(operand(f, op.get())); ot.push_back(type(op->getType())); }
	o["ops"] = std::move(ops); o["ot"] = std::move(ot);
	if (auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
	if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
	if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
	if (auto* iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
	return o;
}

// arithmetic hoisted above a branch by the optimiser: its value only reaches selects of the same block, so an undefined result matters only where it is selected
static bool speculated(const Instruction& I) {
	if (!isa<BinaryOperator>(I) && !isa<SelectInst>(I)) return false;
	if (I.use_empty()) return false;
	for (auto& u : I.uses()) {
		auto* user = dyn_cast<Instruction>(u.getUser());
		if (!user || user->getParent() != I.getParent()) return false;
		if (isa<SelectInst>(user) ? u.getOperandNo() != 0 : isa<BinaryOperator>(user) && speculated(*user)) continue;
		return false;
	}
	return true;
}
static json::Object function(const Function& F) {
	FnCtx f; int n = 0;
	json::Array params;
	for (auto& a : F.args()) {
		f.id[&a] = n; json::Object p{{"id", n}, {"t", type(a.getType())}};
		if (a.hasByValAttr()) p["byval"] = (int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamByValType());
		if (a.hasStructRetAttr()) p["sret"] = (int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamStructRetType());
		if (a.getDereferenceableBytes()) p["deref"] = (int64_t)a.getDereferenceableBytes();
		params.push_back(std::move(p)); n++;
	}
	std::map<const BasicBlock*, int> bid; int b = 0;
	for (auto& B : F) { bid[&B] = b++; for (auto& I : B) f.id[&I] = n++; }
	json::Array blocks;
	for (auto& B : F) { json::Array is; for (auto& I : B) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			auto o = instr(f, I, bid); if (speculated(I)) o["spec"] = true;
			is.push_back(std::move(o)); }
		blocks.push_back(std::move(is)); }
	json::Object o{{"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"ret", type(F.getReturnType())}, {"params", std::move(params)}, {"decl", F.isDeclaration()}, {"blocks", std::move(blocks)}};
	if (auto* sp = F.getSubprogram()) { o["fl"] = sp->getFilename().str(); o["ln"] = (int64_t)sp->getLine(); }
	if (F.hasFnAttribute(Attribute::NoReturn)) o["noreturn"] = true;
	return o;
}

static json::Object global(const GlobalVariable& G) {
	json::Object o{{"name", G.getName().str()}, {"const", G.isConstant()}, {"ext", !G.hasInitializer()}};
	Type* t = G.getValueType();
	o["size"] = t->isSized() ? (int64_t)(uint64_t)DL->getTypeAllocSize(t) : -1;
	o["t"] = type(t);
	if (G.hasInitializer()) o["init"] = constant(G.getInitializer());
	return o;
}

int main(int argc, char** argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print("irdump", errs()); return 2; }
	M = m.get(); DL = &m->getDataLayout();
	std::string prefix = argc > 2 ? argv[2] : "h_";
	for (auto& F : *m) if (!F.isDeclaration() && F.getName().starts_with(prefix)) need(&F);
	json::Array fs, gs;
	while (!work.empty()) {
		const GlobalValue* g = work.back(); work.pop_back();
		if (auto* F = dyn_cast<Function>(g)) { if (F->isIntrinsic()) continue; fs.push_back(function(*F)); }
		else if (auto* V = dyn_cast<GlobalVariable>(g)) gs.push_back(global(*V));
		else if (auto* A = dyn_cast<GlobalAlias>(g)) { APInt off(64, 0); auto* b = A->getAliaseeObject(); if (b) { need(b); gs.push_back(json::Object{{"name", A->getName().str()}, {"alias", b->getName().str()}}); } }
	}
	outs() << json::Value(json::Object{{"functions", std::move(fs)}, {"globals", std::move(gs)}}) << "\n";
}
