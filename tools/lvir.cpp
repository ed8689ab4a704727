// lvir: reads LLVM bitcode of an analysis unit, puts it into the form the abstract interpreter works on (inlined,
// SSA, simplified, error paths cut to a marker) and prints it as JSON. It never executes anything.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;

static cl::opt< std::string > Input( cl::Positional, cl::Required );
static cl::opt< std::string > Roots( "roots", cl::desc( "regex of (mangled) function names to dump" ), cl::init( "^vf_" ) );
static cl::opt< std::string > Opaque( "opaque", cl::desc( "regex of demangled names whose bodies are dropped" ) );
static cl::opt< std::string > Keep( "keep", cl::desc( "regex of demangled names that are dumped and not inlined" ) );
static cl::opt< std::string > NoReturn( "noreturn", cl::desc( "regex of demangled names that never return" ),
                                        cl::init( "^LvArray::system::callErrorHandler\\(|^abort$|^exit$|^std::terminate|^vf_noreturn" ) );
static cl::opt< bool > NoCut( "no-cut", cl::desc( "keep the contents of error paths" ) );
static cl::opt< std::string > Pipeline( "pipeline", cl::init(
  "module(function(sroa,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,adce))" ) );
static cl::opt< std::string > Extra( "extra", cl::init( "" ) );
static cl::opt< bool > SlotRoots( "slot-roots", cl::desc( "functions named in the initializers of tables other than vtables are roots" ) );
static cl::opt< bool > Virtuals( "virtuals", cl::desc( "dump the virtual functions of the classes described by the debug information" ) );
static cl::opt< bool > AsIs( "loops-as-is", cl::desc( "do not split or canonicalise loops" ) );

static std::string dem( StringRef n ) { return demangle( n.str() ); }

static bool matches( std::string const & re, std::string const & s )
{
  if( re.empty() ) return false;
  static std::map< std::string, std::unique_ptr< Regex > > cache;
  auto & r = cache[ re ];
  if( !r ) { r = std::make_unique< Regex >( re ); std::string e; if( !r->isValid( e ) ) { errs() << "bad regex " << re << ": " << e << "\n"; exit( 2 ); } }
  return r->match( s );
}

// ---- error path cutting -------------------------------------------------------------------------------------
static void cutErrorPaths( Module & M )
{
  LLVMContext & C = M.getContext();
  FunctionCallee marker = M.getOrInsertFunction( "vf_error_path", FunctionType::get( Type::getVoidTy( C ), { Type::getInt32Ty( C ) }, false ) );
  // 1. calls to functions that never return end their block.
  std::map< Function *, bool > nr;
  auto isNR = [&]( CallBase * cb ) -> int
  {
    Function * f = cb->getCalledFunction();
    if( !f ) return 0;
    std::string d = dem( f->getName() );
    if( matches( NoReturn, d ) ) return 1;
    if( f->getName() == "__cxa_throw" || f->getName() == "__cxa_rethrow" || StringRef( d ).starts_with( "std::__throw_" ) ) return 2;
    if( f->doesNotReturn() && !f->isIntrinsic() ) return f->getName() == "__assert_fail" ? 3 : 4;
    return 0;
  };
  // functions all of whose paths end in a no-return call are themselves no-return; iterate.
  bool again = true;
  std::map< Function *, int > extraNR;
  auto kindOf = [&]( CallBase * cb ) -> int
  {
    int k = isNR( cb ); if( k ) return k;
    Function * f = cb->getCalledFunction();
    auto it = f ? extraNR.find( f ) : extraNR.end();
    return it == extraNR.end() ? 0 : it->second;
  };
  auto dyingBlocks = [&]( Function & F, std::map< BasicBlock *, std::pair< int, Instruction * > > & dying )
  {
    bool changed = true;
    for( BasicBlock & B : F )
      for( Instruction & I : B )
        if( auto * cb = dyn_cast< CallBase >( &I ) )
          if( int k = kindOf( cb ) ) { dying[ &B ] = { k, cb }; break; }
    while( changed )
    {
      changed = false;
      for( BasicBlock & B : F )
      {
        if( dying.count( &B ) ) continue;
        Instruction * t = B.getTerminator();
        if( isa< UnreachableInst >( t ) || isa< ResumeInst >( t ) ) { if( isa< UnreachableInst >( t ) ) { dying[ &B ] = { 5, t }; changed = true; } continue; }
        if( isa< InvokeInst >( t ) )
        {
          auto * n = cast< InvokeInst >( t )->getNormalDest();
          if( dying.count( n ) ) { dying[ &B ] = dying[ n ]; changed = true; }
          continue;
        }
        if( t->getNumSuccessors() == 0 ) continue;
        bool all = true; std::pair< int, Instruction * > w{ 0, nullptr };
        for( unsigned i = 0; i < t->getNumSuccessors(); ++i )
        {
          BasicBlock * s = t->getSuccessor( i );
          if( s == &B ) { all = false; break; }
          auto it = dying.find( s );
          if( it == dying.end() ) { all = false; break; }
          w = it->second;
        }
        if( all ) { dying[ &B ] = w; changed = true; }
      }
    }
  };
  while( again )
  {
    again = false;
    for( Function & F : M )
    {
      if( F.isDeclaration() || extraNR.count( &F ) ) continue;
      std::map< BasicBlock *, std::pair< int, Instruction * > > d;
      dyingBlocks( F, d );
      auto it = d.find( &F.getEntryBlock() );
      if( it != d.end() && it->second.first != 5 ) { extraNR[ &F ] = it->second.first; again = true; }
    }
  }
  for( Function & F : M )
  {
    if( F.isDeclaration() ) continue;
    std::map< BasicBlock *, std::pair< int, Instruction * > > dying;
    dyingBlocks( F, dying );
    for( auto & kv : dying )
    {
      BasicBlock * B = kv.first;
      int kind = kv.second.first;
      if( kind == 5 ) continue; // plain unreachable: leave
      bool entry = B == &F.getEntryBlock();
      if( !entry )
      {
        bool fromLive = false;
        for( BasicBlock * p : predecessors( B ) ) if( !dying.count( p ) || dying[ p ].first == 5 ) fromLive = true;
        if( !fromLive ) continue;
      }
      DebugLoc dl = kv.second.second->getDebugLoc();
      for( Instruction & I : *B ) if( I.getDebugLoc() ) { dl = I.getDebugLoc(); break; }
      Instruction * at = &*B->getFirstInsertionPt();
      if( entry ) { while( isa< AllocaInst >( at ) ) at = at->getNextNode(); }
      CallInst * ci = CallInst::Create( marker, { ConstantInt::get( Type::getInt32Ty( C ), kind ) }, "", at );
      ci->setDebugLoc( dl );
      changeToUnreachable( at );
    }
    removeUnreachableBlocks( F );
  }
}

// ---- JSON -----------------------------------------------------------------------------------------------------
struct Dumper
{
  json::OStream & J;
  DataLayout const & DL;
  std::map< Value const *, int > ids;
  int next = 0;
  int id( Value const * v ) { auto it = ids.find( v ); if( it != ids.end() ) return it->second; return ids[ v ] = next++; }

  void constant( Constant const * c )
  {
    if( auto * ci = dyn_cast< ConstantInt >( c ) )
    {
      J.attribute( "k", "int" );
      SmallString< 40 > s; ci->getValue().toString( s, 10, ci->getBitWidth() > 1 );
      J.attribute( "i", s.str() );
      J.attribute( "w", (int64_t)ci->getBitWidth() );
    }
    else if( auto * cf = dyn_cast< ConstantFP >( c ) )
    {
      J.attribute( "k", "fp" );
      bool lossy; APFloat f = cf->getValueAPF(); f.convert( APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy );
      char buf[ 64 ]; snprintf( buf, sizeof buf, "%a", f.convertToDouble() );
      J.attribute( "f", buf );
    }
    else if( isa< ConstantPointerNull >( c ) ) J.attribute( "k", "null" );
    else if( isa< UndefValue >( c ) ) J.attribute( "k", "undef" );
    else if( auto * gv = dyn_cast< GlobalValue >( c ) )
    {
      J.attribute( "k", "glob" ); J.attribute( "g", gv->getName() );
    }
    else if( auto * ce = dyn_cast< ConstantExpr >( c ) )
    {
      if( auto * g = dyn_cast< GEPOperator >( ce ) )
      {
        APInt off( 64, 0 );
        g->accumulateConstantOffset( DL, off );
        J.attribute( "k", "cgep" ); J.attribute( "off", off.getSExtValue() );
        J.attributeBegin( "b" ); operand( g->getPointerOperand() ); J.attributeEnd();
      }
      else if( ce->isCast() )
      {
        J.attribute( "k", "ccast" );
        J.attributeBegin( "b" ); operand( ce->getOperand( 0 ) ); J.attributeEnd();
      }
      else { J.attribute( "k", "cexpr" ); std::string s; raw_string_ostream o( s ); ce->print( o ); J.attribute( "s", o.str() ); }
    }
    else if( c->isNullValue() ) J.attribute( "k", "zero" );
    else if( auto * cd = dyn_cast< ConstantDataSequential >( c ) )
    {
      J.attribute( "k", "seq" );
      J.attributeBegin( "e" ); J.arrayBegin();
      for( unsigned i = 0; i < cd->getNumElements(); ++i ) operand( cd->getElementAsConstant( i ) );
      J.arrayEnd(); J.attributeEnd();
    }
    else if( auto * ca = dyn_cast< ConstantAggregate >( c ) )
    {
      J.attribute( "k", "agg" );
      if( auto * st = dyn_cast< StructType >( ca->getType() ) )
      {
        auto * sl = DL.getStructLayout( const_cast< StructType * >( st ) );
        J.attributeBegin( "o" ); J.arrayBegin();
        for( unsigned i = 0; i < ca->getNumOperands(); ++i ) J.value( (int64_t)sl->getElementOffset( i ) );
        J.arrayEnd(); J.attributeEnd();
      }
      else if( auto * at = dyn_cast< ArrayType >( ca->getType() ) )
      {
        J.attribute( "es", (int64_t)DL.getTypeAllocSize( at->getElementType() ) );
      }
      J.attributeBegin( "e" ); J.arrayBegin();
      for( unsigned i = 0; i < ca->getNumOperands(); ++i ) operand( cast< Constant >( ca->getOperand( i ) ) );
      J.arrayEnd(); J.attributeEnd();
    }
    else J.attribute( "k", "unk" );
  }
  void operand( Value const * v )
  {
    J.objectBegin();
    if( auto * c = dyn_cast< Constant >( v ) ) constant( c );
    else { J.attribute( "k", "v" ); J.attribute( "v", id( v ) ); }
    J.objectEnd();
  }
  void type( Type * t, StringRef name = "ty" )
  {
    std::string s; raw_string_ostream o( s ); t->print( o, false, true ); J.attribute( name, o.str() );
    if( t->isSized() ) J.attribute( (name + "sz").str(), (int64_t)DL.getTypeStoreSize( t ) );
  }
  void loc( DebugLoc const & d )
  {
    if( !d ) return;
    J.attributeBegin( "loc" ); J.arrayBegin();
    for( DILocation * l = d.get(); l; l = l->getInlinedAt() )
    {
      J.arrayBegin(); J.value( (l->getDirectory().empty() || l->getFilename().starts_with( "/" )) ? l->getFilename().str() : (l->getDirectory() + "/" + l->getFilename()).str() );
      J.value( (int64_t)l->getLine() ); J.value( l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName() : "" ); J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
  }
  void inst( Instruction & I )
  {
    if( isa< DbgInfoIntrinsic >( I ) ) return;
    if( auto * ii = dyn_cast< IntrinsicInst >( &I ) )
      if( ii->isLifetimeStartOrEnd() || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl ) return;
    J.objectBegin();
    J.attribute( "id", id( &I ) );
    J.attribute( "op", I.getOpcodeName() );
    type( I.getType() );
    if( auto * c = dyn_cast< CmpInst >( &I ) ) J.attribute( "pred", CmpInst::getPredicateName( c->getPredicate() ) );
    if( auto * p = dyn_cast< PHINode >( &I ) )
    {
      J.attributeBegin( "in" ); J.arrayBegin();
      for( unsigned i = 0; i < p->getNumIncomingValues(); ++i )
      { J.arrayBegin(); operand( p->getIncomingValue( i ) ); J.value( id( p->getIncomingBlock( i ) ) ); J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd();
    }
    else if( auto * g = dyn_cast< GetElementPtrInst >( &I ) )
    {
      APInt off( 64, 0 ); MapVector< Value *, APInt > vars;
      bool ok = cast< GEPOperator >( g )->collectOffset( DL, 64, vars, off );
      J.attribute( "ok", ok ); J.attribute( "off", off.getSExtValue() );
      J.attributeBegin( "b" ); operand( g->getPointerOperand() ); J.attributeEnd();
      J.attributeBegin( "vars" ); J.arrayBegin();
      for( auto & v : vars ) { J.arrayBegin(); operand( v.first ); J.value( v.second.getSExtValue() ); J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd();
    }
    else if( auto * cb = dyn_cast< CallBase >( &I ) )
    {
      Function * f = dyn_cast< Function >( cb->getCalledOperand()->stripPointerCasts() );
      if( f ) { J.attribute( "fn", f->getName() ); J.attribute( "dn", dem( f->getName() ) ); J.attribute( "decl", f->isDeclaration() ); }
      else { J.attributeBegin( "callee" ); operand( cb->getCalledOperand() ); J.attributeEnd(); }
      if( cb->doesNotReturn() ) J.attribute( "noret", true );
      if( cb->doesNotAccessMemory() ) J.attribute( "readnone", true );
      J.attributeBegin( "args" ); J.arrayBegin();
      for( auto & a : cb->args() ) operand( a.get() );
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin( "attr" ); J.arrayBegin();
      for( unsigned i = 0; i < cb->arg_size(); ++i )
      {
        J.objectBegin();
        if( cb->paramHasAttr( i, Attribute::StructRet ) ) J.attribute( "sret", (int64_t)DL.getTypeAllocSize( cb->getParamStructRetType( i ) ) );
        if( cb->isByValArgument( i ) ) J.attribute( "byval", (int64_t)DL.getTypeAllocSize( cb->getParamByValType( i ) ) );
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      if( auto * inv = dyn_cast< InvokeInst >( &I ) )
      { J.attribute( "normal", id( inv->getNormalDest() ) ); J.attribute( "unwind", id( inv->getUnwindDest() ) ); }
    }
    else if( auto * b = dyn_cast< BranchInst >( &I ) )
    {
      J.attributeBegin( "succ" ); J.arrayBegin();
      for( unsigned i = 0; i < b->getNumSuccessors(); ++i ) J.value( id( b->getSuccessor( i ) ) );
      J.arrayEnd(); J.attributeEnd();
      if( b->isConditional() ) { J.attributeBegin( "c" ); operand( b->getCondition() ); J.attributeEnd(); }
    }
    else if( auto * sw = dyn_cast< SwitchInst >( &I ) )
    {
      J.attributeBegin( "c" ); operand( sw->getCondition() ); J.attributeEnd();
      J.attribute( "def", id( sw->getDefaultDest() ) );
      J.attributeBegin( "cases" ); J.arrayBegin();
      for( auto & c : sw->cases() ) { J.arrayBegin(); J.value( c.getCaseValue()->getSExtValue() ); J.value( id( c.getCaseSuccessor() ) ); J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd();
    }
    else
    {
      if( auto * s = dyn_cast< StoreInst >( &I ) ) { type( s->getValueOperand()->getType(), "vty" ); if( s->isVolatile() ) J.attribute( "vol", true ); if( s->isAtomic() ) J.attribute( "atomic", true ); }
      if( auto * s = dyn_cast< LoadInst >( &I ) ) { if( s->isVolatile() ) J.attribute( "vol", true ); if( s->isAtomic() ) J.attribute( "atomic", true ); }
      if( auto * a = dyn_cast< AllocaInst >( &I ) ) { J.attribute( "asz", (int64_t)DL.getTypeAllocSize( a->getAllocatedType() ) ); J.attribute( "name", a->getName() ); }
      if( auto * ob = dyn_cast< OverflowingBinaryOperator >( &I ) ) { if( ob->hasNoSignedWrap() ) J.attribute( "nsw", true ); if( ob->hasNoUnsignedWrap() ) J.attribute( "nuw", true ); }
      if( auto * e = dyn_cast< ExtractValueInst >( &I ) ) { J.attributeBegin( "idx" ); J.arrayBegin(); for( unsigned x : e->indices() ) J.value( (int64_t)x ); J.arrayEnd(); J.attributeEnd(); }
      if( auto * e = dyn_cast< InsertValueInst >( &I ) ) { J.attributeBegin( "idx" ); J.arrayBegin(); for( unsigned x : e->indices() ) J.value( (int64_t)x ); J.arrayEnd(); J.attributeEnd(); }
      if( auto * rm = dyn_cast< AtomicRMWInst >( &I ) ) J.attribute( "rmw", AtomicRMWInst::getOperationName( rm->getOperation() ) );
      J.attributeBegin( "ops" ); J.arrayBegin();
      for( Use & u : I.operands() ) if( !isa< BasicBlock >( u.get() ) ) operand( u.get() );
      J.arrayEnd(); J.attributeEnd();
      if( auto * cst = dyn_cast< CastInst >( &I ) ) { type( cst->getSrcTy(), "sty" ); }
      if( isa< CmpInst >( I ) ) type( I.getOperand( 0 )->getType(), "oty" );
    }
    loc( I.getDebugLoc() );
    J.objectEnd();
  }
  void function( Function & F, FunctionAnalysisManager & FAM )
  {
    ids.clear(); next = 0;
    J.objectBegin();
    J.attribute( "name", F.getName() ); J.attribute( "dn", dem( F.getName() ) );
    type( F.getReturnType(), "ret" );
    if( auto * sp = F.getSubprogram() ) { J.attribute( "file", sp->getFilename() ); J.attribute( "line", (int64_t)sp->getLine() ); }
    J.attributeBegin( "args" ); J.arrayBegin();
    for( Argument & a : F.args() )
    {
      J.objectBegin(); J.attribute( "id", id( &a ) ); J.attribute( "name", a.getName() ); type( a.getType() );
      if( a.hasStructRetAttr() ) J.attribute( "sret", (int64_t)DL.getTypeAllocSize( a.getParamStructRetType() ) );
      if( a.hasByValAttr() ) J.attribute( "byval", (int64_t)DL.getTypeAllocSize( a.getParamByValType() ) );
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    auto & LI = FAM.getResult< LoopAnalysis >( F );
    J.attributeBegin( "blocks" ); J.arrayBegin();
    ReversePostOrderTraversal< Function * > rpo( &F );
    for( BasicBlock * B : rpo )
    {
      J.objectBegin(); J.attribute( "id", id( B ) );
      if( Loop * L = LI.getLoopFor( B ) ) J.attribute( "loop", id( L->getHeader() ) );
      J.attributeBegin( "insts" ); J.arrayBegin();
      for( Instruction & I : *B ) inst( I );
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin( "loops" ); J.arrayBegin();
    for( Loop * L : LI.getLoopsInPreorder() )
    {
      J.objectBegin(); J.attribute( "header", id( L->getHeader() ) );
      if( L->getParentLoop() ) J.attribute( "parent", id( L->getParentLoop()->getHeader() ) );
      J.attributeBegin( "blocks" ); J.arrayBegin(); for( BasicBlock * b : L->blocks() ) J.value( id( b ) ); J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
};

static void functionsIn( Constant * c, uint64_t off, DataLayout const & DL, std::vector< std::pair< uint64_t, Function * > > & out )
{
  if( auto * f = dyn_cast< Function >( c->stripPointerCasts() ) ) { out.push_back( { off, f } ); return; }
  if( auto * s = dyn_cast< ConstantStruct >( c ) )
  {
    StructLayout const * l = DL.getStructLayout( s->getType() );
    for( unsigned i = 0; i < s->getNumOperands(); ++i ) functionsIn( s->getOperand( i ), off + l->getElementOffset( i ), DL, out );
  }
  else if( auto * a = dyn_cast< ConstantArray >( c ) )
  {
    uint64_t n = DL.getTypeAllocSize( a->getType()->getElementType() );
    for( unsigned i = 0; i < a->getNumOperands(); ++i ) functionsIn( a->getOperand( i ), off + i * n, DL, out );
  }
}

int main( int argc, char ** argv )
{
  cl::ParseCommandLineOptions( argc, argv );
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile( Input, err, C );
  if( !M ) { err.print( "lvir", errs() ); return 2; }
  for( Function & F : *M )
  {
    F.removeFnAttr( Attribute::OptimizeNone ); F.removeFnAttr( Attribute::NoInline );
    std::string d = dem( F.getName() );
    if( F.isDeclaration() ) continue;
    if( matches( Opaque, d ) ) { F.deleteBody(); F.setComdat( nullptr ); F.setLinkage( GlobalValue::ExternalLinkage ); continue; }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses( MAM ); PB.registerCGSCCAnalyses( CGAM ); PB.registerFunctionAnalyses( FAM );
  PB.registerLoopAnalyses( LAM ); PB.crossRegisterProxies( LAM, FAM, CGAM, MAM );
  auto run = [&]( std::string const & p )
  {
    ModulePassManager MPM;
    if( auto e = PB.parsePassPipeline( MPM, p ) ) { errs() << "lvir: " << toString( std::move( e ) ) << "\n"; exit( 2 ); }
    MPM.run( *M, MAM );
  };
  std::set< Function * > slots;
  if( SlotRoots )
    for( GlobalVariable & G : M->globals() )
      if( G.hasInitializer() && !G.getName().starts_with( "_ZTV" ) && !G.getName().starts_with( "llvm." ) )
      {
        std::vector< std::pair< uint64_t, Function * > > fs; functionsIn( G.getInitializer(), 0, M->getDataLayout(), fs );
        for( auto & f : fs ) slots.insert( f.second );
      }
  if( !NoCut ) { cutErrorPaths( *M ); }
  run( "module(function(lowerinvoke,simplifycfg))" );
  for( Function & F : *M )
  {
    if( F.isDeclaration() ) continue;
    bool root = matches( Roots, F.getName().str() ) || matches( Keep, dem( F.getName() ) ) || slots.count( &F );
    if( root ) { F.setLinkage( GlobalValue::ExternalLinkage ); F.setComdat( nullptr ); F.addFnAttr( Attribute::NoInline ); }
    else { F.addFnAttr( Attribute::AlwaysInline ); F.setComdat( nullptr ); F.setLinkage( GlobalValue::InternalLinkage ); }
  }
  run( "module(always-inline,globaldce)" );
  run( Pipeline );
  if( !Extra.empty() ) run( Extra );
  if( !AsIs )
  {
    // a loop that is continued from several places is one loop, not a nest of them
    for( Function & F : *M )
    {
      if( F.isDeclaration() ) continue;
      DominatorTree DT( F );
      LoopInfo LI( DT );
      for( Loop * L : LI.getLoopsInPreorder() )
      {
        SmallVector< BasicBlock *, 4 > latches;
        L->getLoopLatches( latches );
        bool plain = latches.size() > 1;
        for( BasicBlock * B : latches ) plain = plain && !isa< IndirectBrInst >( B->getTerminator() );
        if( plain ) SplitBlockPredecessors( L->getHeader(), latches, ".backedge", &DT, &LI );
      }
    }
    run( "module(function(loop-simplify))" );
  }
  json::OStream J( outs() );
  J.objectBegin();
  J.attributeBegin( "functions" ); J.arrayBegin();
  for( Function & F : *M )
  {
    if( F.isDeclaration() ) continue;
    Dumper d{ J, M->getDataLayout() };
    d.function( F, FAM );
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin( "globals" ); J.arrayBegin();
  for( GlobalVariable & G : M->globals() )
  {
    J.objectBegin(); J.attribute( "name", G.getName() ); J.attribute( "dn", dem( G.getName() ) ); J.attribute( "const", G.isConstant() );
    J.attribute( "size", G.getValueType()->isSized() ? (int64_t)M->getDataLayout().getTypeAllocSize( G.getValueType() ) : 0 );
    Dumper d{ J, M->getDataLayout() };
    if( G.hasInitializer() )
    {
      if( auto * cds = dyn_cast< ConstantDataSequential >( G.getInitializer() ); cds && cds->isString() ) J.attribute( "str", json::fixUTF8( cds->getAsString() ) );
      else if( G.getValueType()->isArrayTy() && G.getValueType()->getArrayElementType()->isIntegerTy( 8 ) && G.getValueType()->getArrayNumElements() == 1 && G.getInitializer()->isNullValue() ) J.attribute( "str", "" );
      else { J.attributeBegin( "init" ); d.operand( G.getInitializer() ); J.attributeEnd(); }
      if( SlotRoots )
      {
        std::vector< std::pair< uint64_t, Function * > > fs; functionsIn( G.getInitializer(), 0, M->getDataLayout(), fs );
        if( auto * st = dyn_cast< StructType >( G.getValueType()->isArrayTy() ? G.getValueType()->getArrayElementType() : G.getValueType() ); st && st->hasName() ) J.attribute( "struct", st->getName() );
        J.attributeBegin( "fns" ); J.arrayBegin();
        for( auto & f : fs ) { J.arrayBegin(); J.value( (int64_t)f.first ); J.value( f.second->getName() ); J.arrayEnd(); }
        J.arrayEnd(); J.attributeEnd();
      }
    }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  if( Virtuals )
  {
    DebugInfoFinder dif; dif.processModule( *M );
    J.attributeBegin( "virtuals" ); J.arrayBegin();
    for( DIType * t : dif.types() )
      if( auto * ct = dyn_cast< DICompositeType >( t ) )
        for( DINode * e : ct->getElements() )
          if( auto * sp = dyn_cast_or_null< DISubprogram >( e ); sp && sp->getVirtuality() )
          {
            J.objectBegin(); J.attribute( "class", ct->getName() ); J.attribute( "name", sp->getName() ); J.attribute( "dn", dem( sp->getLinkageName() ) );
            J.attribute( "index", (int64_t)sp->getVirtualIndex() ); J.objectEnd();
          }
    J.arrayEnd(); J.attributeEnd();
  }
  J.objectEnd();
  outs() << "\n";
  return 0;
}
