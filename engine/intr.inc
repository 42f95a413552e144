enum { IN_NONE=0, IN_ASM, IN_INDIRECT, IN_UNRESOLVED, IN_NOP, IN_NOP0,
 IN_MEMCPY, IN_MEMSET, IN_MEMCMP, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_FSHL, IN_FSHR, IN_USUBSAT, IN_UADDSAT,
 IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_VASTART, IN_VACOPY, IN_STACKSAVE, IN_TRAP, IN_TYPEID, IN_OBJSIZE, IN_ISCONST, IN_TLADDR, IN_EXPECT, IN_FABS, IN_FPUN,
 IN_MALLOC, IN_CALLOC, IN_FREE, IN_REALLOC, IN_NEW, IN_NEWA, IN_NEWAL, IN_DELETE, IN_DELETEA, IN_MEMALIGN, IN_ALIGNED,
 IN_SYM, IN_BYTES, IN_ASSUME, IN_ASSERT, IN_OBSERVE, IN_REACH, IN_CHOICE, IN_CONC, IN_PARAM, IN_TID, IN_THREAD, IN_BLOCK, IN_BLOCKT, IN_SLEEP, IN_YIELD, IN_SCHED, IN_ATOMIC, IN_FAIL, IN_HIGN, IN_NOTE, IN_OSIZE, IN_NATIVE, IN_EV, IN_VALID, IN_ISSYM, IN_DUMP, IN_FMTDBL, IN_PICK, IN_ALIVE, IN_POINT,
 IN_CXA_ALLOC, IN_CXA_THROW, IN_CXA_BEGIN, IN_CXA_END, IN_CXA_RETHROW, IN_CXA_FREE, IN_RESUME, IN_GUARD_ACQ, IN_GUARD_REL, IN_TERMINATE, IN_ABORT, IN_ASSERTFAIL, IN_PUREVIRT, IN_EXIT, IN_THROWFN, IN_DYNCAST };
static int intrOf(FInfo*f,CallBase&c){
  static std::map<std::string,int> m; if(m.empty()){
    const std::pair<const char*,int> t[]={ {"malloc",IN_MALLOC},{"calloc",IN_CALLOC},{"free",IN_FREE},{"realloc",IN_REALLOC},{"_Znwm",IN_NEW},{"_Znam",IN_NEWA},{"_ZdlPv",IN_DELETE},{"_ZdlPvm",IN_DELETE},{"_ZdaPv",IN_DELETEA},{"_ZdaPvm",IN_DELETEA},{"_ZnwmRKSt9nothrow_t",IN_NEW},{"_ZnamRKSt9nothrow_t",IN_NEWA},{"_ZnwmSt11align_val_t",IN_NEWAL},{"_ZdlPvSt11align_val_t",IN_DELETE},{"_ZdlPvmSt11align_val_t",IN_DELETE},{"posix_memalign",IN_MEMALIGN},{"aligned_alloc",IN_ALIGNED},{"memalign",IN_ALIGNED},
     {"memcpy",IN_MEMCPY},{"memmove",IN_MEMCPY},{"memset",IN_MEMSET},{"memcmp",IN_MEMCMP},{"bcmp",IN_MEMCMP},
     {"symx_sym",IN_SYM},{"symx_bytes",IN_BYTES},{"symx_assume",IN_ASSUME},{"symx_assert",IN_ASSERT},{"symx_observe",IN_OBSERVE},{"symx_reach",IN_REACH},{"symx_choice",IN_CHOICE},{"symx_concretize",IN_CONC},{"symx_param",IN_PARAM},{"symx_tid",IN_TID},{"symx_thread_create",IN_THREAD},{"symx_block_while",IN_BLOCK},{"symx_block_while_timed",IN_BLOCKT},{"symx_sleep",IN_SLEEP},{"symx_yield",IN_YIELD},{"symx_sched",IN_SCHED},{"symx_atomic",IN_ATOMIC},{"symx_fail",IN_FAIL},{"symx_hash_ignore",IN_HIGN},{"symx_note",IN_NOTE},{"symx_objsize",IN_OSIZE},{"symx_is_native",IN_NATIVE},{"symx_ev",IN_EV},{"symx_valid",IN_VALID},{"symx_is_symbolic",IN_ISSYM},{"symx_dump",IN_DUMP},{"symx_fmtdbl",IN_FMTDBL},{"symx_pick",IN_PICK},{"symx_alive",IN_ALIVE},{"symx_point",IN_POINT},
     {"__cxa_allocate_exception",IN_CXA_ALLOC},{"__cxa_free_exception",IN_CXA_FREE},{"__cxa_throw",IN_CXA_THROW},{"__cxa_begin_catch",IN_CXA_BEGIN},{"__cxa_end_catch",IN_CXA_END},{"__cxa_rethrow",IN_CXA_RETHROW},{"_Unwind_Resume",IN_RESUME},{"__cxa_guard_acquire",IN_GUARD_ACQ},{"__cxa_guard_release",IN_GUARD_REL},{"__cxa_guard_abort",IN_NOP},{"_ZSt9terminatev",IN_TERMINATE},{"abort",IN_ABORT},{"__assert_fail",IN_ASSERTFAIL},{"__cxa_pure_virtual",IN_PUREVIRT},{"__stack_chk_fail",IN_ABORT},{"exit",IN_EXIT},{"_exit",IN_EXIT},{"__cxa_call_unexpected",IN_TERMINATE},{"__dynamic_cast",IN_DYNCAST},
     {"__cxa_atexit",IN_NOP0},{"__cxa_thread_atexit",IN_NOP0},{"_ZNSt8ios_base4InitC1Ev",IN_NOP},{"_ZNSt8ios_base4InitD1Ev",IN_NOP},{"sched_yield",IN_YIELD} };
    for(auto&p:t) m[p.first]=p.second; }
  if(!f->F->isDeclaration()) return IN_NONE;
  StringRef n=f->name;
  if(f->F->isIntrinsic()) switch(f->F->getIntrinsicID()){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return IN_MEMCPY; case Intrinsic::memset: return IN_MEMSET;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return IN_NOP;
    case Intrinsic::umax: return IN_UMAX; case Intrinsic::umin: return IN_UMIN; case Intrinsic::smax: return IN_SMAX; case Intrinsic::smin: return IN_SMIN; case Intrinsic::abs: return IN_ABS;
    case Intrinsic::ctpop: return IN_CTPOP; case Intrinsic::ctlz: return IN_CTLZ; case Intrinsic::cttz: return IN_CTTZ; case Intrinsic::bswap: return IN_BSWAP; case Intrinsic::fshl: return IN_FSHL; case Intrinsic::fshr: return IN_FSHR; case Intrinsic::usub_sat: return IN_USUBSAT; case Intrinsic::uadd_sat: return IN_UADDSAT;
    case Intrinsic::uadd_with_overflow: return IN_UADDO; case Intrinsic::usub_with_overflow: return IN_USUBO; case Intrinsic::umul_with_overflow: return IN_UMULO; case Intrinsic::sadd_with_overflow: return IN_SADDO; case Intrinsic::ssub_with_overflow: return IN_SSUBO; case Intrinsic::smul_with_overflow: return IN_SMULO;
    case Intrinsic::vastart: return IN_VASTART; case Intrinsic::vacopy: return IN_VACOPY; case Intrinsic::stacksave: return IN_STACKSAVE; case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return IN_TRAP; case Intrinsic::eh_typeid_for: return IN_TYPEID; case Intrinsic::objectsize: return IN_OBJSIZE; case Intrinsic::is_constant: return IN_ISCONST; case Intrinsic::threadlocal_address: return IN_TLADDR; case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return IN_EXPECT; case Intrinsic::fabs: return IN_FABS;
    default: if(n.starts_with("llvm.x86.sse")&&(n.ends_with("fence")||n.ends_with("pause"))) return IN_NOP; return IN_UNRESOLVED; }
  auto it=m.find(f->name); if(it!=m.end()) return it->second;
  if(n.starts_with("_ZSt")&&n.contains("__throw_")) return IN_THROWFN;
  return IN_UNRESOLVED; }
