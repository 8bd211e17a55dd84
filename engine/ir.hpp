// Precompiled form of the LLVM bitcode of the code under verification.
#pragma once
#include "expr.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

enum VK : u8 { V_UNDEF, V_CONC, V_SYM };

struct Val
{
  u64 c; E e; u32 prov; u16 w; u8 kind;
  static Val undef( unsigned w ) { return { 0, nullptr, 0, (u16)w, V_UNDEF }; }
  static Val conc( u64 c, unsigned w, u32 prov = 0 ) { return { w >= 64 ? c : ( c & maskw( w ) ), nullptr, prov, (u16)w, V_CONC }; }
  static Val of( E e, u32 prov = 0 )
  {
    if( e->op == O_CONST && e->w <= 64 ) return { e->c, nullptr, prov, e->w, V_CONC };
    return { 0, e, prov, e->w, V_SYM };
  }
  bool isC() const { return kind == V_CONC; }
  bool isS() const { return kind == V_SYM; }
  bool isU() const { return kind == V_UNDEF; }
  E toE() const { return kind == V_CONC ? kc( c, w ) : e; }
};

struct Opd { int slot; Val v; };     // slot < 0: constant v

enum IOp : u8
{
  I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_FPCVT,
  I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_SELECT, I_CALL, I_RET, I_UNREACHABLE, I_FREEZE,
  I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_UNSUPPORTED
};

struct Fn;
struct LeafT { u32 off; u16 w; u8 bytes; bool ptr; bool fp; };

struct Ins
{
  IOp op; u8 sub = 0;           // Op or LLVM predicate
  u16 w = 0;
  bool nsw = false, nuw = false, exact = false, isPtr = false;
  int dst = -1;
  u32 n = 0;                    // number of leaves of the result
  std::vector< Opd > a;
  std::vector< LeafT > leaves;  // load/store/select/ret
  i64 imm = 0;                  // GEP constant offset, alloca size
  std::vector< i64 > scales;    // GEP
  std::vector< u32 > succ;      // branch targets
  std::vector< u64 > cases;
  const llvm::Instruction * I = nullptr;
  const llvm::Function * callee = nullptr;
  std::vector< u32 > argLeaves; std::vector< u64 > byval;
  u32 covId = 0;
};

struct Phi { int dst; u32 n; std::vector< std::pair< u32, std::vector< Opd > > > in; };
struct Block { std::vector< Phi > phis; std::vector< Ins > ins; };
struct Fn
{
  const llvm::Function * F; std::string name; std::vector< Block > blocks; u32 nslots = 0;
  std::vector< int > argSlot; std::vector< u32 > argN; bool compiled = false;
};
