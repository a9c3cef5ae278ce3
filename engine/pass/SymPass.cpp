// SymPass: LLVM pass that turns compiled code into its own symbolic executor.
//
// Every SSA value of scalar type gets a "shadow": an i32 handle of a symbolic
// expression kept by the runtime (0 = concrete).  The pass only emits calls to
// the runtime (engine/rt); it never changes what the code computes.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/Format.h"
#include <set>

using namespace llvm;

namespace {

struct SymPass : PassInfoMixin<SymPass> {
    Module* M = nullptr;
    LLVMContext* C = nullptr;
    const DataLayout* DL = nullptr;
    Type *I1, *I8, *I32, *I64, *Void, *Ptr;
    Constant* Zero32;

    using Shadow = SmallVector<Value*, 2>;
    DenseMap<Value*, Shadow> S;
    std::vector<std::pair<PHINode*, SmallVector<PHINode*, 2>>> Phis;

    static bool isRequired() { return true; }

    // --- types -----------------------------------------------------------
    int tyCode(Type* T)
    {
        if (auto* IT = dyn_cast<IntegerType>(T)) {
            return IT->getBitWidth() <= 64 ? (int) IT->getBitWidth() : 0;
        }
        if (T->isPointerTy()) return 64;
        if (T->isFloatTy()) return 132;
        if (T->isDoubleTy()) return 164;
        return 0;
    }
    void flatten(Type* T, SmallVectorImpl<Type*>& Out)
    {
        if (auto* ST = dyn_cast<StructType>(T)) {
            for (auto* E : ST->elements()) flatten(E, Out);
        } else if (auto* AT = dyn_cast<ArrayType>(T)) {
            for (unsigned i = 0; i < AT->getNumElements() && i < 16; ++i)
                flatten(AT->getElementType(), Out);
        } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
            for (unsigned i = 0; i < VT->getNumElements(); ++i)
                Out.push_back(VT->getElementType());
        } else {
            Out.push_back(T);
        }
    }
    unsigned nLeaves(Type* T)
    {
        if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy()
            || T->isLabelTy())
            return 0;
        SmallVector<Type*, 8> L;
        flatten(T, L);
        return L.size();
    }
    // first leaf index of an extractvalue/insertvalue path
    unsigned leafIndex(Type* T, ArrayRef<unsigned> Idx)
    {
        unsigned base = 0;
        for (unsigned i : Idx) {
            if (auto* ST = dyn_cast<StructType>(T)) {
                for (unsigned k = 0; k < i; ++k)
                    base += nLeaves(ST->getElementType(k));
                T = ST->getElementType(i);
            } else {
                auto* AT = cast<ArrayType>(T);
                base += i * nLeaves(AT->getElementType());
                T = AT->getElementType();
            }
        }
        return base;
    }

    FunctionCallee fn(StringRef N, Type* R, ArrayRef<Type*> A)
    {
        return M->getOrInsertFunction(N, FunctionType::get(R, A, false));
    }

    Value* bits(IRBuilder<>& B, Value* V)
    {
        Type* T = V->getType();
        if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
        if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
        if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
        return B.CreateZExtOrTrunc(V, I64);
    }
    Constant* c32(int v) { return ConstantInt::get(I32, v, true); }

    // --- shadows ---------------------------------------------------------
    Value* sh(Value* V, unsigned i = 0)
    {
        if (isa<Constant>(V)) return Zero32;
        auto it = S.find(V);
        if (it == S.end() || i >= it->second.size() || !it->second[i])
            return Zero32;
        return it->second[i];
    }
    bool isZero(Value* s) { return s == Zero32; }
    bool anySh(Value* V)
    {
        if (isa<Constant>(V)) return false;
        auto it = S.find(V);
        if (it == S.end()) return false;
        for (auto* s : it->second)
            if (s && !isZero(s)) return true;
        return false;
    }
    void setSh(Value* V, Value* s) { S[V] = {s}; }

    // concretise every symbolic leaf of V (unsupported use)
    void concretize(IRBuilder<>& B, Value* V, int kind)
    {
        if (!anySh(V)) return;
        SmallVector<Type*, 8> L;
        Type* T = V->getType();
        flatten(T, L);
        for (unsigned i = 0; i < L.size(); ++i) {
            Value* s = sh(V, i);
            if (isZero(s)) continue;
            int tc = tyCode(L[i]);
            if (!tc) continue;
            Value* leaf = leafValue(B, V, i);
            if (!leaf) continue;
            B.CreateCall(fn("__sym_concretize", Void, {I32, I64, I32, I32}),
                         {s, bits(B, leaf), c32(tc), c32(kind)});
        }
    }
    Value* leafRec(IRBuilder<>& B, Value* V, Type* T, unsigned& i)
    {
        if (auto* ST = dyn_cast<StructType>(T)) {
            for (unsigned k = 0; k < ST->getNumElements(); ++k) {
                unsigned n = nLeaves(ST->getElementType(k));
                if (i < n)
                    return leafRec(B, B.CreateExtractValue(V, k),
                                   ST->getElementType(k), i);
                i -= n;
            }
            return nullptr;
        }
        if (auto* AT = dyn_cast<ArrayType>(T)) {
            unsigned n = nLeaves(AT->getElementType());
            if (!n) return nullptr;
            unsigned k = i / n;
            i %= n;
            return leafRec(B, B.CreateExtractValue(V, k), AT->getElementType(),
                           i);
        }
        if (isa<FixedVectorType>(T)) return B.CreateExtractElement(V, i);
        return V;
    }
    Value* leafValue(IRBuilder<>& B, Value* V, unsigned i)
    {
        unsigned k = i;
        return leafRec(B, V, V->getType(), k);
    }

    unsigned siteHash(Instruction& I)
    {
        static unsigned n = 0;
        return ++n;
    }

    // --- main -------------------------------------------------------------
    PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&)
    {
        M = &Mod;
        C = &Mod.getContext();
        DL = &Mod.getDataLayout();
        I1 = Type::getInt1Ty(*C);
        I8 = Type::getInt8Ty(*C);
        I32 = Type::getInt32Ty(*C);
        I64 = Type::getInt64Ty(*C);
        Void = Type::getVoidTy(*C);
        Ptr = PointerType::get(*C, 0);
        Zero32 = ConstantInt::get(I32, 0);
        std::vector<Function*> Fs;
        for (auto& F : Mod)
            if (!F.isDeclaration() && !F.getName().starts_with("__sym_")
                && !F.hasAvailableExternallyLinkage())
                Fs.push_back(&F);
        for (auto* F : Fs) instrument(*F);
        return PreservedAnalyses::none();
    }

    void instrument(Function& F)
    {
        S.clear();
        Phis.clear();
        for (auto* BB : [&] {
                 std::vector<BasicBlock*> v;
                 for (auto& b : F) v.push_back(&b);
                 return v;
             }()) {
            auto* inv = dyn_cast<InvokeInst>(BB->getTerminator());
            if (!inv || inv->getNormalDest()->getSinglePredecessor()) continue;
            BasicBlock* nd = inv->getNormalDest();
            BasicBlock* nb = BasicBlock::Create(*C, "", &F, nd);
            BranchInst::Create(nd, nb);
            inv->setNormalDest(nb);
            nd->replacePhiUsesWith(BB, nb);
        }
        // Collect original instructions in RPO first.
        std::vector<BasicBlock*> Blocks;
        {
            ReversePostOrderTraversal<Function*> RPO(&F);
            for (auto* BB : RPO) Blocks.push_back(BB);
        }
        std::vector<Instruction*> Work;
        for (auto* BB : Blocks)
            for (auto& I : *BB) Work.push_back(&I);

        // entry
        BasicBlock& E = F.getEntryBlock();
        Instruction* ip = &*E.getFirstNonPHIOrDbgOrAlloca();
        IRBuilder<> B(ip);
        GlobalVariable* pend = cast<GlobalVariable>(
                M->getOrInsertGlobal("__sym_pending", I32));
        bool anyParam = false;
        for (auto& A : F.args())
            if (tyCode(A.getType()) || A.hasByValAttr()) anyParam = true;
        if (anyParam) {
            Value* has = B.CreateCall(
                    fn("__sym_enter", I32, {Ptr}),
                    {&F});
            for (auto& A : F.args()) {
                int tc = tyCode(A.getType());
                if (A.hasByValAttr()) {
                    B.CreateCall(
                            fn("__sym_byval", Void, {I32, I32, Ptr, I64}),
                            {has, c32(A.getArgNo()), &A,
                             ConstantInt::get(I64, DL->getTypeAllocSize(
                                                       A.getParamByValType()))});
                    continue;
                }
                if (!tc) continue;
                if (A.hasStructRetAttr()) continue;
                if (A.getArgNo() == 0 && A.getType()->isPointerTy()
                    && A.hasAttribute(Attribute::NonNull)
                    && A.hasAttribute(Attribute::Dereferenceable))
                    continue;// `this`
                Value* s = B.CreateCall(
                        fn("__sym_get_param", I32, {I32, I32, I64}),
                        {has, c32(A.getArgNo()), bits(B, &A)});
                setSh(&A, s);
            }
        } else {
            B.CreateCall(fn("__sym_enter", I32, {Ptr}), {&F});
        }

        // phis first
        for (auto* I : Work) {
            if (auto* P = dyn_cast<PHINode>(I)) {
                unsigned n = nLeaves(P->getType());
                SmallVector<Type*, 8> L;
                flatten(P->getType(), L);
                bool ok = false;
                for (auto* t : L)
                    if (tyCode(t)) ok = true;
                if (!ok || n > 8) continue;
                SmallVector<PHINode*, 2> ps;
                Shadow shs;
                for (unsigned i = 0; i < n; ++i) {
                    auto* sp = PHINode::Create(I32, P->getNumIncomingValues(),
                                               "", P);
                    ps.push_back(sp);
                    shs.push_back(sp);
                }
                S[P] = shs;
                Phis.push_back({P, ps});
            }
        }
        for (auto* I : Work) {
            if (isa<PHINode>(I)) continue;
            visit(*I);
        }
        for (auto& [P, ps] : Phis) {
            for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
                for (unsigned i = 0; i < ps.size(); ++i)
                    ps[i]->addIncoming(sh(P->getIncomingValue(k), i),
                                       P->getIncomingBlock(k));
        }
    }

    void visit(Instruction& I)
    {
        if (isa<DbgInfoIntrinsic>(I)) return;
        Instruction* next = I.isTerminator() ? nullptr : I.getNextNode();
        IRBuilder<> B(&I);
        if (next) B.SetInsertPoint(next);
        switch (I.getOpcode()) {
            case Instruction::Alloca: {
                auto& A = cast<AllocaInst>(I);
                auto sz = A.getAllocationSize(*DL);
                // keep static allocas grouped: insert after entry allocas
                if (sz && A.isStaticAlloca()) {
                    IRBuilder<> B2(&*A.getFunction()
                                             ->getEntryBlock()
                                             .getFirstNonPHIOrDbgOrAlloca());
                    B2.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                                  {&A, ConstantInt::get(I64, sz->getFixedValue())});
                }
                return;
            }
            case Instruction::Load: {
                auto& L = cast<LoadInst>(I);
                IRBuilder<> BB(&I);
                addr(BB, L.getPointerOperand());
                loadLeaves(B, I, L.getPointerOperand(), L.getType());
                return;
            }
            case Instruction::Store: {
                auto& St = cast<StoreInst>(I);
                IRBuilder<> BB(&I);
                addr(BB, St.getPointerOperand());
                storeLeaves(BB, St.getValueOperand(), St.getPointerOperand());
                return;
            }
            case Instruction::GetElementPtr: return gep(B, cast<GetElementPtrInst>(I));
            case Instruction::Br: {
                auto& Br = cast<BranchInst>(I);
                if (!Br.isConditional()) return;
                Value* s = sh(Br.getCondition());
                if (isZero(s)) return;
                B.CreateCall(fn("__sym_branch", Void, {I32, I1, I32}),
                             {s, Br.getCondition(), c32(siteHash(I))});
                return;
            }
            case Instruction::Switch: {
                auto& Sw = cast<SwitchInst>(I);
                Value* s = sh(Sw.getCondition());
                if (isZero(s)) return;
                int tc = tyCode(Sw.getCondition()->getType());
                std::vector<uint64_t> cs;
                for (auto& c : Sw.cases())
                    cs.push_back(c.getCaseValue()->getZExtValue());
                Constant* arr = ConstantDataArray::get(*C, cs);
                auto* gv = new GlobalVariable(*M, arr->getType(), true,
                                              GlobalValue::PrivateLinkage, arr,
                                              "__symcases");
                B.CreateCall(fn("__sym_switch", Void, {I32, I64, I32, Ptr, I32}),
                             {s, bits(B, Sw.getCondition()), c32(tc), gv,
                              c32(cs.size())});
                return;
            }
            case Instruction::IndirectBr:
                concretize(B, I.getOperand(0), 1);
                return;
            case Instruction::Ret: {
                auto& R = cast<ReturnInst>(I);
                Value* V = R.getReturnValue();
                if (!V) return;
                SmallVector<Type*, 8> L;
                flatten(V->getType(), L);
                for (unsigned i = 0; i < L.size() && i < 4; ++i) {
                    Value* s = sh(V, i);
                    int tc = tyCode(L[i]);
                    if (!tc) continue;
                    if (isZero(s)) {
                        storeRet(B, i);
                    } else {
                        B.CreateCall(fn("__sym_set_ret", Void, {I32, I32, I64}),
                                     {c32(i), s, bits(B, leafValue(B, V, i))});
                    }
                }
                return;
            }
            case Instruction::ICmp:
            case Instruction::FCmp: {
                auto& Cm = cast<CmpInst>(I);
                Value *a = Cm.getOperand(0), *b = Cm.getOperand(1);
                if (!anySh(a) && !anySh(b)) return;
                int tc = tyCode(a->getType());
                if (!tc) {
                    concretize(B, a, 2);
                    concretize(B, b, 2);
                    return;
                }
                setSh(&I, B.CreateCall(
                                  fn("__sym_cmp", I32,
                                     {I32, I32, I32, I64, I32, I64}),
                                  {c32(Cm.getPredicate()), c32(tc), sh(a),
                                   bits(B, a), sh(b), bits(B, b)}));
                return;
            }
            case Instruction::Select: {
                auto& Se = cast<SelectInst>(I);
                Value* c = Se.getCondition();
                Value *a = Se.getTrueValue(), *b = Se.getFalseValue();
                if (!anySh(c) && !anySh(a) && !anySh(b)) return;
                if (c->getType()->isVectorTy()) {
                    concretize(B, c, 3);
                    concretize(B, a, 3);
                    concretize(B, b, 3);
                    return;
                }
                SmallVector<Type*, 8> L;
                flatten(a->getType(), L);
                Shadow r;
                for (unsigned i = 0; i < L.size(); ++i) {
                    int tc = tyCode(L[i]);
                    if (!tc) {
                        r.push_back(Zero32);
                        continue;
                    }
                    if (isZero(sh(c))) {
                        r.push_back(B.CreateSelect(c, sh(a, i), sh(b, i)));
                    } else {
                        r.push_back(B.CreateCall(
                                fn("__sym_select", I32,
                                   {I32, I1, I32, I64, I32, I64, I32}),
                                {sh(c), c, sh(a, i), bits(B, leafValue(B, a, i)),
                                 sh(b, i), bits(B, leafValue(B, b, i)),
                                 c32(tc)}));
                    }
                }
                S[&I] = r;
                return;
            }
            case Instruction::ExtractValue: {
                auto& X = cast<ExtractValueInst>(I);
                if (!anySh(X.getAggregateOperand())) return;
                unsigned base = leafIndex(X.getAggregateOperand()->getType(),
                                          X.getIndices());
                Shadow r;
                for (unsigned i = 0; i < nLeaves(I.getType()); ++i)
                    r.push_back(sh(X.getAggregateOperand(), base + i));
                S[&I] = r;
                return;
            }
            case Instruction::InsertValue: {
                auto& X = cast<InsertValueInst>(I);
                Value *a = X.getAggregateOperand(),
                      *v = X.getInsertedValueOperand();
                if (!anySh(a) && !anySh(v)) return;
                unsigned base = leafIndex(a->getType(), X.getIndices());
                unsigned n = nLeaves(v->getType());
                Shadow r;
                for (unsigned i = 0; i < nLeaves(I.getType()); ++i)
                    r.push_back(i >= base && i < base + n ? sh(v, i - base)
                                                          : sh(a, i));
                S[&I] = r;
                return;
            }
            case Instruction::ExtractElement: {
                Value *v = I.getOperand(0), *ix = I.getOperand(1);
                concretize(B, ix, 4);
                if (!anySh(v)) return;
                if (auto* ci = dyn_cast<ConstantInt>(ix)) {
                    setSh(&I, sh(v, ci->getZExtValue()));
                } else {
                    concretize(B, v, 4);
                }
                return;
            }
            case Instruction::InsertElement: {
                Value *v = I.getOperand(0), *e = I.getOperand(1),
                      *ix = I.getOperand(2);
                concretize(B, ix, 4);
                if (!anySh(v) && !anySh(e)) return;
                auto* ci = dyn_cast<ConstantInt>(ix);
                if (!ci) {
                    concretize(B, v, 4);
                    concretize(B, e, 4);
                    return;
                }
                Shadow r;
                for (unsigned i = 0; i < nLeaves(I.getType()); ++i)
                    r.push_back(i == ci->getZExtValue() ? sh(e) : sh(v, i));
                S[&I] = r;
                return;
            }
            case Instruction::ShuffleVector: {
                auto& X = cast<ShuffleVectorInst>(I);
                Value *a = X.getOperand(0), *b = X.getOperand(1);
                if (!anySh(a) && !anySh(b)) return;
                unsigned n = nLeaves(a->getType());
                Shadow r;
                for (int m : X.getShuffleMask())
                    r.push_back(m < 0                  ? Zero32
                                : (unsigned) m < n ? sh(a, m)
                                                   : sh(b, m - n));
                S[&I] = r;
                return;
            }
            case Instruction::Freeze: {
                if (anySh(I.getOperand(0))) S[&I] = Shadow(S[I.getOperand(0)]);
                return;
            }
            case Instruction::FNeg: {
                unaryLeaves(B, I, 1000);
                return;
            }
            case Instruction::Call: return call(B, cast<CallBase>(I), next);
            case Instruction::Invoke: return call(B, cast<CallBase>(I), nullptr);
            case Instruction::AtomicRMW: {
                auto& A = cast<AtomicRMWInst>(I);
                IRBuilder<> BB(&I);
                concretize(BB, A.getValOperand(), 5);
                B.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                             {A.getPointerOperand(),
                              ConstantInt::get(I64, DL->getTypeStoreSize(
                                                            A.getType()))});
                return;
            }
            case Instruction::AtomicCmpXchg: {
                auto& A = cast<AtomicCmpXchgInst>(I);
                IRBuilder<> BB(&I);
                concretize(BB, A.getNewValOperand(), 5);
                concretize(BB, A.getCompareOperand(), 5);
                B.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                             {A.getPointerOperand(),
                              ConstantInt::get(
                                      I64, DL->getTypeStoreSize(
                                                   A.getNewValOperand()
                                                           ->getType()))});
                return;
            }
            case Instruction::LandingPad:
            case Instruction::Resume:
            case Instruction::Unreachable:
            case Instruction::Fence: return;
            default: break;
        }
        if (auto* BO = dyn_cast<BinaryOperator>(&I)) {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            if (!anySh(a) && !anySh(b)) return;
            SmallVector<Type*, 8> L;
            flatten(I.getType(), L);
            Shadow r;
            for (unsigned i = 0; i < L.size(); ++i) {
                int tc = tyCode(L[i]);
                if (!tc) {
                    concretize(B, a, 6);
                    concretize(B, b, 6);
                    return;
                }
                r.push_back(B.CreateCall(
                        fn("__sym_bin", I32, {I32, I32, I32, I64, I32, I64}),
                        {c32(BO->getOpcode()), c32(tc), sh(a, i),
                         bits(B, leafValue(B, a, i)), sh(b, i),
                         bits(B, leafValue(B, b, i))}));
            }
            S[&I] = r;
            return;
        }
        if (auto* CI = dyn_cast<CastInst>(&I)) {
            Value* a = CI->getOperand(0);
            if (!anySh(a)) return;
            int f = tyCode(a->getType()), t = tyCode(I.getType());
            if (!f || !t) {
                SmallVector<Type*, 8> LF, LT;
                flatten(a->getType(), LF);
                flatten(I.getType(), LT);
                if (CI->getOpcode() == Instruction::BitCast
                    && LF.size() == LT.size() && tyCode(LF[0])
                    && tyCode(LT[0])) {
                    Shadow r;
                    for (unsigned i = 0; i < LF.size(); ++i)
                        r.push_back(B.CreateCall(
                                fn("__sym_cast", I32, {I32, I32, I32, I32, I64}),
                                {c32(CI->getOpcode()), c32(tyCode(LF[i])),
                                 c32(tyCode(LT[i])), sh(a, i),
                                 bits(B, leafValue(B, a, i))}));
                    S[&I] = r;
                    return;
                }
                // zext/sext to wide ints that are immediately used as i128...
                concretize(B, a, 7);
                return;
            }
            setSh(&I, B.CreateCall(
                              fn("__sym_cast", I32, {I32, I32, I32, I32, I64}),
                              {c32(CI->getOpcode()), c32(f), c32(t), sh(a),
                               bits(B, a)}));
            return;
        }
        // anything else: concretise symbolic operands
        for (auto& op : I.operands()) {
            if (op->getType()->isLabelTy()) continue;
            concretize(B, op, 8);
        }
    }

    void storeRet(IRBuilder<>& B, unsigned i)
    {
        auto* g = M->getOrInsertGlobal("__sym_ret", ArrayType::get(I32, 4));
        B.CreateStore(Zero32, B.CreateConstInBoundsGEP2_32(
                                      ArrayType::get(I32, 4), g, 0, i));
    }

    void addr(IRBuilder<>& B, Value* p)
    {
        Value* s = sh(p);
        if (isZero(s)) return;
        B.CreateCall(fn("__sym_addr", Void, {I32, I64}), {s, bits(B, p)});
    }

    void leafOffsets(Type* T, uint64_t base, SmallVectorImpl<uint64_t>& Out)
    {
        if (auto* ST = dyn_cast<StructType>(T)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); ++i)
                leafOffsets(ST->getElementType(i),
                            base + SL->getElementOffset(i), Out);
        } else if (auto* AT = dyn_cast<ArrayType>(T)) {
            for (unsigned i = 0; i < AT->getNumElements() && i < 16; ++i)
                leafOffsets(AT->getElementType(),
                            base + i * DL->getTypeAllocSize(AT->getElementType()),
                            Out);
        } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
            for (unsigned i = 0; i < VT->getNumElements(); ++i)
                Out.push_back(base + i * DL->getTypeAllocSize(VT->getElementType()));
        } else {
            Out.push_back(base);
        }
    }
    Value* off(IRBuilder<>& B, Value* p, uint64_t o)
    {
        return o ? B.CreateConstInBoundsGEP1_64(I8, p, o) : p;
    }
    void loadLeaves(IRBuilder<>& B, Value& R, Value* p, Type* T)
    {
        SmallVector<Type*, 8> L;
        SmallVector<uint64_t, 8> O;
        flatten(T, L);
        leafOffsets(T, 0, O);
        Shadow r;
        for (unsigned i = 0; i < L.size(); ++i) {
            int tc = tyCode(L[i]);
            if (!tc) {
                r.push_back(Zero32);
                continue;
            }
            r.push_back(B.CreateCall(
                    fn("__sym_load", I32, {Ptr, I32, I32, I64}),
                    {off(B, p, O[i]), c32(DL->getTypeStoreSize(L[i])), c32(tc),
                     bits(B, leafValue(B, &R, i))}));
        }
        S[&R] = r;
    }
    void storeLeaves(IRBuilder<>& B, Value* V, Value* p)
    {
        SmallVector<Type*, 8> L;
        SmallVector<uint64_t, 8> O;
        flatten(V->getType(), L);
        leafOffsets(V->getType(), 0, O);
        if (!anySh(V)) {
            B.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                         {p, ConstantInt::get(
                                     I64, DL->getTypeStoreSize(V->getType()))});
            return;
        }
        for (unsigned i = 0; i < L.size(); ++i) {
            int tc = tyCode(L[i]);
            uint64_t sz = DL->getTypeStoreSize(L[i]);
            Value* s = sh(V, i);
            if (!tc || isZero(s)) {
                B.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                             {off(B, p, O[i]), ConstantInt::get(I64, sz)});
            } else {
                B.CreateCall(fn("__sym_store", Void, {Ptr, I32, I32, I32, I64}),
                             {off(B, p, O[i]), c32(sz), c32(tc), s,
                              bits(B, leafValue(B, V, i))});
            }
        }
    }
    void gep(IRBuilder<>& B, GetElementPtrInst& G)
    {
        if (G.getType()->isVectorTy()) {
            for (auto& op : G.operands()) concretize(B, op, 9);
            return;
        }
        bool any = anySh(G.getPointerOperand());
        for (auto& ix : G.indices())
            if (anySh(ix)) any = true;
        if (!any) return;
        // ptr = base + sum(idx * scale) + const
        Value* s = sh(G.getPointerOperand());
        Value* cur = bits(B, G.getPointerOperand());
        auto add = [&](Value* s2, Value* v2) {
            s = B.CreateCall(
                    fn("__sym_bin", I32, {I32, I32, I32, I64, I32, I64}),
                    {c32(Instruction::Add), c32(64), s, cur, s2, v2});
            cur = B.CreateAdd(cur, v2);
        };
        for (auto it = gep_type_begin(G); it != gep_type_end(G); ++it) {
            Value* ix = it.getOperand();
            if (auto* ST = it.getStructTypeOrNull()) {
                uint64_t o = DL->getStructLayout(ST)->getElementOffset(
                        cast<ConstantInt>(ix)->getZExtValue());
                if (o) add(Zero32, ConstantInt::get(I64, o));
                continue;
            }
            uint64_t sc = it.getSequentialElementStride(*DL);
            Value* v = B.CreateSExtOrTrunc(ix, I64);
            Value* si = sh(ix);
            if (!isZero(si)) {
                int tc = tyCode(ix->getType());
                if (tc < 64)
                    si = B.CreateCall(
                            fn("__sym_cast", I32, {I32, I32, I32, I32, I64}),
                            {c32(Instruction::SExt), c32(tc), c32(64), si,
                             bits(B, ix)});
                si = B.CreateCall(
                        fn("__sym_bin", I32, {I32, I32, I32, I64, I32, I64}),
                        {c32(Instruction::Mul), c32(64), si, v, Zero32,
                         ConstantInt::get(I64, sc)});
            }
            add(si, B.CreateMul(v, ConstantInt::get(I64, sc)));
        }
        setSh(&G, s);
    }
    void unaryLeaves(IRBuilder<>& B, Instruction& I, int op)
    {
        Value* a = I.getOperand(0);
        if (!anySh(a)) return;
        SmallVector<Type*, 8> L;
        flatten(a->getType(), L);
        Shadow r;
        for (unsigned i = 0; i < L.size(); ++i)
            r.push_back(B.CreateCall(fn("__sym_un", I32, {I32, I32, I32, I64}),
                                     {c32(op), c32(tyCode(L[i])), sh(a, i),
                                      bits(B, leafValue(B, a, i))}));
        S[&I] = r;
    }

    bool emitUn(IRBuilder<>& B, CallBase& I, int op)
    {
        Value* a = I.getArgOperand(0);
        if (!anySh(a)) return true;
        int tc = tyCode(a->getType());
        if (!tc) {
            concretize(B, a, 10);
            return true;
        }
        setSh(&I, B.CreateCall(fn("__sym_un", I32, {I32, I32, I32, I64}),
                               {c32(op), c32(tc), sh(a), bits(B, a)}));
        return true;
    }
    bool emitBin(IRBuilder<>& B, CallBase& I, int op)
    {
        Value *a = I.getArgOperand(0), *b = I.getArgOperand(1);
        if (!anySh(a) && !anySh(b)) return true;
        int tc = tyCode(a->getType());
        if (!tc || tyCode(b->getType()) == 0) {
            concretize(B, a, 10);
            concretize(B, b, 10);
            return true;
        }
        setSh(&I, B.CreateCall(fn("__sym_bin", I32,
                                  {I32, I32, I32, I64, I32, I64}),
                               {c32(op), c32(tc), sh(a), bits(B, a), sh(b),
                                bits(B, b)}));
        return true;
    }
    bool emitOvf(IRBuilder<>& B, CallBase& I, int op, int ovfOp)
    {
        Value *a = I.getArgOperand(0), *b = I.getArgOperand(1);
        if (!anySh(a) && !anySh(b)) return true;
        int tc = tyCode(a->getType());
        if (!tc) {
            concretize(B, a, 10);
            concretize(B, b, 10);
            return true;
        }
        auto F = fn("__sym_bin", I32, {I32, I32, I32, I64, I32, I64});
        Value* va = bits(B, a);
        Value* vb = bits(B, b);
        Value* r = B.CreateCall(F, {c32(op), c32(tc), sh(a), va, sh(b), vb});
        Value* o = B.CreateCall(F, {c32(ovfOp), c32(tc), sh(a), va, sh(b), vb});
        S[&I] = {r, o};
        return true;
    }

    bool intrinsic(IRBuilder<>& B, IntrinsicInst& I)
    {
        IRBuilder<> Pre(&I);
        switch (I.getIntrinsicID()) {
            case Intrinsic::lifetime_start:
                B.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                             {I.getArgOperand(1), I.getArgOperand(0)});
                return true;
            case Intrinsic::lifetime_end:
            case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::eh_typeid_for:
            case Intrinsic::invariant_start:
            case Intrinsic::invariant_end:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::prefetch:
            case Intrinsic::vastart:
            case Intrinsic::vaend:
            case Intrinsic::vacopy:
            case Intrinsic::stacksave:
            case Intrinsic::stackrestore:
            case Intrinsic::trap: return true;
            case Intrinsic::is_constant:
            case Intrinsic::objectsize: return true;
            case Intrinsic::expect: {
                if (anySh(I.getArgOperand(0)))
                    S[&I] = Shadow(S[I.getArgOperand(0)]);
                return true;
            }
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove:
                addr(Pre, I.getArgOperand(0));
                addr(Pre, I.getArgOperand(1));
                concretize(Pre, I.getArgOperand(2), 11);
                Pre.CreateCall(fn("__sym_memcpy", Void, {Ptr, Ptr, I64}),
                               {I.getArgOperand(0), I.getArgOperand(1),
                                Pre.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
                return true;
            case Intrinsic::memset:
            case Intrinsic::memset_inline:
                addr(Pre, I.getArgOperand(0));
                concretize(Pre, I.getArgOperand(2), 11);
                Pre.CreateCall(
                        fn("__sym_memset", Void, {Ptr, I32, I64, I64}),
                        {I.getArgOperand(0), sh(I.getArgOperand(1)),
                         bits(Pre, I.getArgOperand(1)),
                         Pre.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
                return true;
            case Intrinsic::abs: return emitUn(B, I, 1001);
            case Intrinsic::ctlz: return emitUn(B, I, 1002);
            case Intrinsic::cttz: return emitUn(B, I, 1003);
            case Intrinsic::ctpop: return emitUn(B, I, 1004);
            case Intrinsic::bswap: return emitUn(B, I, 1005);
            case Intrinsic::floor: return emitUn(B, I, 1010);
            case Intrinsic::ceil: return emitUn(B, I, 1011);
            case Intrinsic::trunc: return emitUn(B, I, 1012);
            case Intrinsic::rint:
            case Intrinsic::nearbyint:
            case Intrinsic::roundeven: return emitUn(B, I, 1013);
            case Intrinsic::round: return emitUn(B, I, 1014);
            case Intrinsic::fabs: return emitUn(B, I, 1015);
            case Intrinsic::sqrt: return emitUn(B, I, 1016);
            case Intrinsic::smax: return emitBin(B, I, 1100);
            case Intrinsic::smin: return emitBin(B, I, 1101);
            case Intrinsic::umax: return emitBin(B, I, 1102);
            case Intrinsic::umin: return emitBin(B, I, 1103);
            case Intrinsic::usub_sat: return emitBin(B, I, 1104);
            case Intrinsic::uadd_sat: return emitBin(B, I, 1105);
            case Intrinsic::ldexp: return emitBin(B, I, 1110);
            case Intrinsic::minnum: return emitBin(B, I, 1111);
            case Intrinsic::maxnum: return emitBin(B, I, 1112);
            case Intrinsic::copysign: return emitBin(B, I, 1113);
            case Intrinsic::sadd_with_overflow:
                return emitOvf(B, I, Instruction::Add, 1120);
            case Intrinsic::uadd_with_overflow:
                return emitOvf(B, I, Instruction::Add, 1121);
            case Intrinsic::ssub_with_overflow:
                return emitOvf(B, I, Instruction::Sub, 1122);
            case Intrinsic::usub_with_overflow:
                return emitOvf(B, I, Instruction::Sub, 1123);
            case Intrinsic::smul_with_overflow:
                return emitOvf(B, I, Instruction::Mul, 1124);
            case Intrinsic::umul_with_overflow:
                return emitOvf(B, I, Instruction::Mul, 1125);
            case Intrinsic::fmuladd:
            case Intrinsic::fma: {
                for (auto& a : I.args()) concretize(B, a, 12);
                return true;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr: {
                Value *a = I.getArgOperand(0), *b = I.getArgOperand(1),
                      *c = I.getArgOperand(2);
                if (!anySh(a) && !anySh(b) && !anySh(c)) return true;
                int tc = tyCode(I.getType());
                if (!tc || anySh(c)) {
                    concretize(B, c, 13);
                    if (!tc) {
                        concretize(B, a, 13);
                        concretize(B, b, 13);
                        return true;
                    }
                }
                setSh(&I,
                      B.CreateCall(
                              fn("__sym_funnel", I32,
                                 {I32, I32, I32, I64, I32, I64, I64}),
                              {c32(I.getIntrinsicID() == Intrinsic::fshl),
                               c32(tc), sh(a), bits(B, a), sh(b), bits(B, b),
                               bits(B, c)}));
                return true;
            }
            case Intrinsic::is_fpclass: {
                Value* a = I.getArgOperand(0);
                if (!anySh(a)) return true;
                setSh(&I,
                      B.CreateCall(
                              fn("__sym_bin", I32,
                                 {I32, I32, I32, I64, I32, I64}),
                              {c32(1114), c32(tyCode(a->getType())), sh(a),
                               bits(B, a), Zero32,
                               B.CreateZExt(I.getArgOperand(1), I64)}));
                return true;
            }
            default: break;
        }
        for (auto& a : I.args()) concretize(B, a, 14);
        return true;
    }

    void call(IRBuilder<>& B, CallBase& I, Instruction* next)
    {
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
            intrinsic(B, *II);
            return;
        }
        if (I.isInlineAsm()) {
            IRBuilder<> Pre(&I);
            for (auto& a : I.args()) concretize(Pre, a, 15);
            return;
        }
        Function* callee = I.getCalledFunction();
        StringRef name = callee ? callee->getName() : "";
        if (name.starts_with("__sym_")) return;
        // post insertion point
        IRBuilder<> Post(*C);
        auto getPost = [&]() {
            if (next) {
                Post.SetInsertPoint(next);
            } else {
                auto* inv = cast<InvokeInst>(&I);
                BasicBlock* nb = inv->getNormalDest();
                Post.SetInsertPoint(&*nb->getFirstInsertionPt());
            }
        };
        // modelled libcalls
        static const std::map<StringRef, int> un = {
                {"floor", 1010},  {"ceil", 1011},   {"trunc", 1012},
                {"rint", 1013},   {"nearbyint", 1013}, {"round", 1014},
                {"fabs", 1015},   {"sqrt", 1016},   {"floorf", 1010},
                {"ceilf", 1011},  {"fabsf", 1015},  {"sqrtf", 1016},
                {"abs", 1001},    {"labs", 1001},   {"llabs", 1001}};
        static const std::map<StringRef, int> bin = {{"ldexp", 1110},
                                                     {"scalbn", 1110},
                                                     {"ldexpf", 1110}};
        if (callee && callee->isDeclaration()) {
            auto u = un.find(name);
            if (u != un.end() || bin.count(name)) {
                getPost();
                if (u != un.end())
                    emitUn(Post, I, u->second);
                else
                    emitBin(Post, I, bin.at(name));
                return;
            }
            if (name == "frexp") {
                IRBuilder<> Pre(&I);
                getPost();
                Value* a = I.getArgOperand(0);
                if (anySh(a)) {
                    setSh(&I, Post.CreateCall(
                                      fn("__sym_frexp", I32, {I32, I64, Ptr}),
                                      {sh(a), bits(Post, a), I.getArgOperand(1)}));
                } else {
                    Post.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                                    {I.getArgOperand(1), ConstantInt::get(I64, 4)});
                }
                return;
            }
            if (name == "memcpy" || name == "memmove") {
                IRBuilder<> Pre(&I);
                addr(Pre, I.getArgOperand(0));
                addr(Pre, I.getArgOperand(1));
                concretize(Pre, I.getArgOperand(2), 11);
                Pre.CreateCall(fn("__sym_memcpy", Void, {Ptr, Ptr, I64}),
                               {I.getArgOperand(0), I.getArgOperand(1),
                                I.getArgOperand(2)});
                return;
            }
            if (name == "memset") {
                IRBuilder<> Pre(&I);
                addr(Pre, I.getArgOperand(0));
                concretize(Pre, I.getArgOperand(2), 11);
                Pre.CreateCall(fn("__sym_memset", Void, {Ptr, I32, I64, I64}),
                               {I.getArgOperand(0), Zero32,
                                ConstantInt::get(I64, 0), I.getArgOperand(2)});
                concretize(Pre, I.getArgOperand(1), 11);
                return;
            }
            if (name == "memcmp" || name == "bcmp" || name == "strcmp"
                || name == "strncmp") {
                IRBuilder<> Pre(&I);
                addr(Pre, I.getArgOperand(0));
                addr(Pre, I.getArgOperand(1));
                Value* n = I.arg_size() > 2 ? I.getArgOperand(2)
                                            : ConstantInt::get(I64, -1);
                concretize(Pre, n, 11);
                Pre.CreateCall(fn("__sym_memcmp", Void, {Ptr, Ptr, I64, I32}),
                               {I.getArgOperand(0), I.getArgOperand(1), n,
                                c32(name.starts_with("str"))});
                return;
            }
            if (name == "strlen") {
                IRBuilder<> Pre(&I);
                addr(Pre, I.getArgOperand(0));
                Pre.CreateCall(fn("__sym_strlen", Void, {Ptr}),
                               {I.getArgOperand(0)});
                return;
            }
            if (name == "malloc" || name == "_Znwm" || name == "_Znam"
                || name == "_ZnwmSt11align_val_t") {
                IRBuilder<> Pre(&I);
                concretize(Pre, I.getArgOperand(0), 16);
                getPost();
                Post.CreateCall(fn("__sym_clear", Void, {Ptr, I64}),
                                {&I, I.getArgOperand(0)});
                return;
            }
            if (name == "__cxa_allocate_exception" || name == "__cxa_throw"
                || name == "__cxa_begin_catch" || name == "__cxa_end_catch"
                || name == "__cxa_guard_acquire" || name == "__cxa_guard_release"
                || name == "__cxa_free_exception" || name == "__cxa_atexit")
                return;
            if (name == "_ZdlPv" || name == "_ZdlPvm" || name == "free"
                || name == "_ZdaPv" || name == "_ZdaPvm") {
                IRBuilder<> Pre(&I);
                Pre.CreateCall(fn("__sym_free", Void, {Ptr}),
                               {I.getArgOperand(0)});
                return;
            }
        }
        IRBuilder<> Pre(&I);
        bool any = false;
        for (unsigned i = 0; i < I.arg_size() && i < 32; ++i) {
            Value* a = I.getArgOperand(i);
            if (I.isByValArgument(i)) {
                any = true;
                continue;
            }
            if (!anySh(a)) continue;
            if (!tyCode(a->getType())) {
                concretize(Pre, a, 17);
                continue;
            }
            any = true;
        }
        if (any) {
            // clear the table first, then fill
            Pre.CreateCall(fn("__sym_begin_call", Void, {Ptr}),
                           {I.getCalledOperand()});
            for (unsigned i = 0; i < I.arg_size() && i < 32; ++i) {
                Value* a = I.getArgOperand(i);
                if (I.isByValArgument(i)) {
                    Pre.CreateCall(fn("__sym_set_byval", Void, {I32, Ptr}),
                                   {c32(i), a});
                    continue;
                }
                if (!anySh(a) || !tyCode(a->getType())) continue;
                Pre.CreateCall(fn("__sym_set_param", Void, {I32, I32, I64, I32}),
                               {c32(i), sh(a), bits(Pre, a),
                                c32(tyCode(a->getType()))});
            }
        } else {
            GlobalVariable* pend = cast<GlobalVariable>(
                    M->getOrInsertGlobal("__sym_pending", I32));
            Pre.CreateStore(Zero32, pend);
        }
        Type* RT = I.getType();
        SmallVector<Type*, 8> L;
        if (!RT->isVoidTy()) flatten(RT, L);
        bool retSh = false;
        for (unsigned i = 0; i < L.size() && i < 4; ++i)
            if (tyCode(L[i])) {
                retSh = true;
                storeRet(Pre, i);
            }
        if (any || retSh) getPost();
        if (any)
            Post.CreateCall(
                    fn("__sym_post_call", Void, {Ptr}),
                    {callee ? (Value*) Post.CreateGlobalStringPtr(name)
                            : (Value*) ConstantPointerNull::get(
                                    cast<PointerType>(Ptr))});
        if (retSh) {
            Shadow r;
            for (unsigned i = 0; i < L.size() && i < 4; ++i) {
                if (!tyCode(L[i])) {
                    r.push_back(Zero32);
                    continue;
                }
                r.push_back(Post.CreateCall(
                        fn("__sym_get_ret", I32, {I32, I64, I32}),
                        {c32(i), bits(Post, leafValue(Post, &I, i)),
                         c32(tyCode(L[i]))}));
            }
            S[&I] = r;
        }
    }
};

}// namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback(
                        [](ModulePassManager& MPM, OptimizationLevel) {
                            MPM.addPass(SymPass());
                        });
            }};
}
