"""Compile-time helpers: exhaustive evaluation by the compiler's constant evaluator, plus term identities."""
import itertools
from engine import lifecycle
from engine.terms import *

TECHNIQUE = "exhaustive compile-time evaluation by the type checker (constant expressions), plus polynomial identities over IR"
LEVEL_NOTE = '''Every sequence of length up to 4 over {-1..4} and every permutation of length 5 (plus its single-entry corruptions) for the permutation predicates; every boolean pattern up to
length 4 for all_of; the view-type selectors for types with every combination of conversion members. Trusts clang's constant evaluator and the declarations of camp used in place of the real library.'''
EXPLANATION = '''The helpers are constant expressions: the compiler's constant evaluator decides them while type-checking a generated unit, one obligation per argument; helpers that take run-time
values are decided by polynomial identity over their IR.'''
ASSUMPTIONS = ['camp::idx_seq, seq_at and all_of behave as in the camp library (a declaration-level stand-in is used)']

PRE = '''
#include "typeManipulation.hpp"
#include "indexing.hpp"
#include "vf.hpp"
namespace tmn = LvArray::typeManipulation;
#define P( e, l ) vf_prove( std::integral_constant< bool, (e) >::value, l )
extern "C" { void vf_arg( long ) noexcept; void vf_args( long, long, long ) noexcept; }
struct None { int x; };
struct V1 {}; struct V2 {}; struct V3 {}; struct V4 {}; struct V5 {};
struct All { V1 toView() const; V2 toViewConstSizes() const; V3 toViewConst() const; V4 toNestedView() const; V5 toNestedViewConst() const; };
struct OnlyView { V1 toView() const; };
struct ViewAndConst { V1 toView() const; V3 toViewConst() const; };
struct Nested { V1 toView() const; V4 toNestedView() const; };
struct RefView { V1 const & toView() const; V3 const & toViewConst() const; };
template< typename... > struct Tmpl {}; template< typename... > struct Tmpl2 {};
struct Wrong { int toView; };
HAS_MEMBER_TYPE( vtype ); HAS_STATIC_MEMBER( vstat ); HAS_MEMBER_FUNCTION_NO_RTYPE( vfun, 1 ); IS_VALID_EXPRESSION( vneg, T, -std::declval< T >() ); IS_VALID_EXPRESSION_2( vsum, T, U, std::declval< T >() + std::declval< U >() );
struct H1 { using vtype = int; static int vstat; void vfun( int ); }; struct H2 { int vtype; int vstat; void vfun(); }; struct H3 { static void vstat(); void vfun( double ); };
'''


def seq(s):
    return 'camp::idx_seq< %s >' % ', '.join(map(str, s))


def b(x):
    return 'true' if x else 'false'


def run(ctx):
    o = [PRE]
    body = []

    def flush(name):
        o.append('extern "C" void vf_%s() {' % name)
        o.extend(body)
        o.append('}')
        del body[:]
    seqs = []
    for n in range(1, 5):
        seqs += list(itertools.product(range(-1, 5), repeat=n))
    p5 = list(itertools.permutations(range(5)))
    seqs += p5
    for k, p in enumerate(p5):
        i = k % 5
        q = list(p)
        q[i] = p[(i + 1) % 5]
        seqs.append(tuple(q))
        q = list(p)
        q[i] = 5
        seqs.append(tuple(q))
    for k, s in enumerate(seqs):
        good = sorted(s) == list(range(len(s)))
        body.append('P( tmn::isValidPermutation( %s {} ) == %s, "a sequence counts as a permutation exactly if it holds each dimension once" );' % (seq(s), b(good)))
        if k % 400 == 399:
            flush('perm%d' % k)
    flush('perm')
    for n in range(1, 6):
        for p in itertools.permutations(range(n)):
            body.append('P( tmn::getStrideOneDimension( %s {} ) == %d, "the unit-stride dimension is the last in layout order" );' % (seq(p), p[-1]))
            body.append('P( tmn::getDimension( %s {} ) == %d, "the dimension of a layout is its length" );' % (seq(p), n))
            if n <= 4:
                body.append('{ constexpr auto a = tmn::asArray( %s {} ); %s }' % (seq(p), ' '.join('P( a[ %d ] == %d, "a layout as an array lists its entries" );' % (i, x) for i, x in enumerate(p))))
    flush('layout')
    for n in range(0, 5):
        for bs in itertools.product([False, True], repeat=n):
            body.append('P( (tmn::all_of< %s >::value == %s), "all_of is the conjunction" );' % (', '.join(map(b, bs)), b(all(bs))))
            body.append('P( (tmn::all_of_t< %s >::value == %s), "all_of_t is the conjunction" );' % (', '.join('std::%s_type' % b(x) for x in bs), b(all(bs))))
    flush('all_of')
    T = 'the view type of %s is what its conversion member returns, else the type itself'
    for alias, exp in (
        ('ViewType', {'None': 'None &', 'None const': 'None const &', 'int': 'int &', 'double const': 'double const &', 'All': 'V1', 'All const': 'V1', 'OnlyView': 'V1', 'ViewAndConst': 'V1', 'Nested': 'V1', 'RefView': 'V1 const &'}),
        ('ViewTypeConstSizes', {'None': 'None &', 'int': 'int &', 'All': 'V2', 'All const': 'V2', 'OnlyView': 'V1', 'ViewAndConst': 'V1', 'RefView': 'V1 const &'}),
        ('ViewTypeConst', {'None': 'None const &', 'None const': 'None const &', 'int': 'int const &', 'All': 'V3', 'All const': 'V3', 'OnlyView': 'OnlyView const &', 'ViewAndConst': 'V3', 'RefView': 'V3 const &'}),
        ('NestedViewType', {'None': 'None &', 'int': 'int &', 'All': 'V4 const', 'OnlyView': 'V1', 'Nested': 'V4 const', 'RefView': 'V1 const &'}),
            ('NestedViewTypeConst', {'None': 'None const &', 'int': 'int const &', 'All': 'V5 const', 'OnlyView': 'OnlyView const &', 'ViewAndConst': 'V3', 'RefView': 'V3 const &'})):
        for t, e in exp.items():
            body.append('P( (std::is_same< tmn::%s< %s >, %s >::value), "%s" );' % (alias, t, e, T % 'a type'))
    for m, have in (('toView', ['All', 'OnlyView', 'ViewAndConst', 'Nested', 'RefView']), ('toViewConst', ['All', 'ViewAndConst', 'RefView']), ('toViewConstSizes', ['All']), ('toNestedView', ['All', 'Nested']), ('toNestedViewConst', ['All'])):
        for t in ('None', 'All', 'OnlyView', 'ViewAndConst', 'Nested', 'RefView', 'Wrong', 'int'):
            body.append('P( tmn::HasMemberFunction_%s< %s > == %s, "member detection is exact" );' % (m, t, b(t in have)))
    body.append('P( (tmn::is_instantiation_of< Tmpl, Tmpl< int, char > >), "is_instantiation_of" ); P( !(tmn::is_instantiation_of< Tmpl, Tmpl2< int > >), "is_instantiation_of" ); P( (tmn::is_instantiation_of< Tmpl, Tmpl<> >), "is_instantiation_of" ); P( !(tmn::is_instantiation_of< Tmpl, int >), "is_instantiation_of" );')
    for t, d in (('vtype', {'H1': 1, 'H2': 0, 'H3': 0}), ('vstat', {'H1': 1, 'H2': 0, 'H3': 1}), ('vfun', {'H1': 1, 'H2': 0, 'H3': 1})):
        pre = {'vtype': 'HasMemberType_', 'vstat': 'HasStaticMember_', 'vfun': 'HasMemberFunction_'}[t]
        for h, v in d.items():
            body.append('P( %s%s< %s > == %s, "member detection is exact" );' % (pre, t, h, b(v)))
    body.append('P( vneg< int >, "expression detection is exact" ); P( !vneg< H1 >, "expression detection is exact" ); P( (vsum< int, double >), "expression detection is exact" ); P( (vsum< int *, int >), "expression detection is exact" ); P( !(vsum< H1, int >), "expression detection is exact" ); P( !(vsum< int *, int * >), "expression detection is exact" );')
    flush('types')
    # values
    o.append('''
extern "C" void vf_each( long a, long b, long c, long d ) { tmn::forEachArg( []( long x ) { vf_arg( x ); }, a, b, c, d ); }
extern "C" void vf_size_down( long n ) { vf_assume( n >= 0 ); vf_prove( tmn::convertSize< int, double >( n ) == 2 * n, "element counts convert exactly" ); vf_prove( tmn::convertSize< char, int >( n ) == 4 * n, "element counts convert exactly" );
  vf_prove( tmn::convertSize< int, float >( n ) == n, "element counts convert exactly" ); }
extern "C" void vf_size_up( long n ) { vf_assume( n >= 0 ); long const r = tmn::convertSize< double, int >( n ); vf_prove( 2 * r == n, "element counts convert exactly or are refused" ); }
extern "C" void vf_size_up_ok( long n ) { vf_assume( n >= 0 ); long const r = tmn::convertSize< double, int >( 2 * n ); vf_prove( r == n, "element counts convert exactly" ); }
extern "C" void vf_mul1( long const * d ) { vf_prove( LvArray::indexing::multiplyAll< 1 >( d ) == d[ 0 ], "multiplyAll is the product of all values" ); }
extern "C" void vf_mul2( long const * d ) { vf_prove( LvArray::indexing::multiplyAll< 2 >( d ) == d[ 0 ] * d[ 1 ], "multiplyAll is the product of all values" ); }
extern "C" void vf_mul3( long const * d ) { vf_prove( LvArray::indexing::multiplyAll< 3 >( d ) == d[ 0 ] * d[ 1 ] * d[ 2 ], "multiplyAll is the product of all values" ); }
extern "C" void vf_mul4( long const * d ) { vf_prove( LvArray::indexing::multiplyAll< 4 >( d ) == d[ 0 ] * d[ 1 ] * d[ 2 ] * d[ 3 ], "multiplyAll is the product of all values" ); }
''')

    def fin(ip, f, outs, rep):
        if f == 'vf_each':
            for k, st, v in outs:
                got = [e[2][0] for e in st.events if e[0] == 'call' and e[1] == 'vf_arg']
                rep.check(got == [sym(x) for x in 'abcd'], 'forEachArg visits each argument once, in order', 'visits %r' % (got,), 'src/typeManipulation.hpp: forEachArg')
        if f == 'vf_size_up_ok':
            for k, st, v in outs:
                rep.check(k == 'ret', 'element counts convert exactly', 'a divisible count is refused', 'src/typeManipulation.hpp: convertSize')
    ctx.drive('c26', text='\n'.join(o), opts={'wrap': False}, finish=fin)
    ctx.extra['exhaustive'] = True
