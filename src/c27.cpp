// C27: the iterators of scanner and selector behave as input iterators
#include "pathmodel.hpp"
#include "gendoc.hpp"
namespace vf {
extern const Check check;
const Check check={"C27",60000,2000000,"distinct (document, character set, history of iterator operations) triples with at least 3 elements",0,60};
using namespace textwolf; typedef XMLScannerBase XB;
void init() {}
struct Elem {int type; std::string val;};
struct ScanRun
{
	Rng& r; const gd::Case& c; uint64_t h; size_t elems;
	template <class CS> void go()
	{
		typename std::decay<CS>::type set=cs::Info<CS>::make( c.page);
		if (r.chance(1,2)) {typedef XMLScanner<CStringIterator,CS,charset::UTF8,std::string> S; CStringIterator i( c.bytes.data(), c.bytes.size()); S a( set, i), b( set, i); work( a, b);}
		else {std::vector<char> m( c.bytes.begin(), c.bytes.end()); m.insert( m.end(), 4, '\0'); typedef XMLScanner<char*,CS,CS,std::string> S; S a( set, &m[0]), b( set, &m[0]); work( a, b);}
	}
	// an iterator and the number of the element it has to stand on: -1: none yet, -2: the end
	template <class I> struct It {I i; long at; bool bound; It( const I& i_, long a, bool b) :i(i_),at(a),bound(b) {}};
	template <class S> void work( S& sc, S& other)
	{
		typedef typename S::iterator I; std::vector<Elem> seq; unsigned more=0;
		while (seq.size()<400)
		{
			Elem e; e.type=other.nextItem();
			if (e.type==XB::ErrorOccurred) {const char* m=0; other.getError( &m); e.val=m?m:"";} else e.val.assign( other.getItemPtr(), other.getItemSize());
			seq.push_back( e); if ((e.type==XB::ErrorOccurred||e.type==XB::Exit) && ++more>3) break;
		}
		elems=seq.size(); h=hash( c.bytes); long pos=-1;	// the element the scanner stands on
		std::vector<It<I> > pool; I fin=sc.end(), none;
		static_assert( std::is_same<typename std::iterator_traits<I>::iterator_category,std::input_iterator_tag>::value, "category");
		if (r.chance(1,2)) {pool.push_back( It<I>( sc.begin( false), -1, true));} else {pool.push_back( It<I>( sc.begin(), ++pos, true));}
		for (unsigned step=0; step<2000 && pos+1<(long)seq.size(); ++step)
		{
			size_t k=r.below( pool.size()); It<I>& x=pool[k]; unsigned op=r.below( 12); h=mix( h, op*16+k);
			switch (op)
			{
				case 0: if (pool.size()<6) {It<I> y( I( x.i), x.at, x.bound); pool.push_back( y); count( "iterators copied");} break;
				case 1: {size_t j=r.below( pool.size()); I& ret=(pool[j].i=x.i); if (&ret!=&pool[j].i) fail( "assignment does not return the iterator"); pool[j].at=x.at; pool[j].bound=x.bound; count( "iterators assigned"); break;}
				case 2: {size_t j=r.below( pool.size()); same( x, pool[j], seq); break;}
				case 3: same( x, It<I>( fin, -2, false), seq); break;
				case 4: {It<I> n( none, -1, false); same( x, n, seq); if (r.chance(1,3)) {same( n, It<I>( fin, -2, false), seq); same( It<I>( I( fin), -2, false), It<I>( sc.end(), -2, false), seq);} break;}
				case 5: if (pool.size()<6 && r.chance(1,6)) {bool skip=r.chance(1,2); if (skip && pos+1<(long)seq.size()) pool.push_back( It<I>( I( sc), ++pos, true)); else pool.push_back( It<I>( I( sc, false), -1, true)); count( "iterators made");} else if (pool.size()>1 && r.chance(1,2)) pool.erase( pool.begin()+k); break;
				case 6: if (pool.size()<6 && r.chance(1,10)) {bool e=r.chance(1,2); pool.push_back( It<I>( e?fin:none, e?-2:-1, false));} break;
				case 7: case 8: if (x.bound) {long old=x.at; ++pos; I ret=x.i++; x.at=pos; stands( ret, old, seq, -9); stands( x.i, x.at, seq, pos); count( "postincrements");} else {long a=x.at; I ret=x.i++; stands( ret, a, seq, -9); stands( x.i, a, seq, -9); count( "increments of an end");} break;
				default: if (x.bound) {++pos; I& ret=++x.i; x.at=pos; if (&ret!=&x.i) fail( "increment does not return the iterator"); stands( x.i, x.at, seq, pos); count( "increments");} else {++x.i; stands( x.i, x.at, seq, -9); count( "increments of an end");} break;
			}
			if (r.chance(1,8)) for (auto& p:pool) stands( p.i, p.at, seq, pos);
		}
		// what the iterators did to the scanner is only to take elements
		for (long p=pos+1; p<(long)seq.size(); ++p) if (sc.nextItem()!=seq[p].type) fail( "element "+num(p)+" of the scanner differs after the iterators were used");
	}
	static int type( long at, const std::vector<Elem>& seq) {return at==-1?(int)XB::None:at==-2?(int)XB::Exit:seq[at].type;}
	template <class I> void stands( const I& i, long at, const std::vector<Elem>& seq, long pos)
	{
		int t=type( at, seq); std::string w=" of an iterator on element "+(at<0?std::string(at==-1?"none":"end"):num(at));
		if (i->type()!=t || (*i).type()!=t) fail( "type"+w+" is "+num( i->type())+" instead of "+num(t));
		if (std::string(i->name())!=XB::getElementTypeName( (XB::ElementType)t)) fail( "name"+w);
		if (i->valid()!=(t!=XB::Exit&&t!=XB::ErrorOccurred)) fail( "valid()"+w);
		if ((i->error()!=0)!=(t==XB::ErrorOccurred)) fail( "error()"+w);
		if (at<0) {if (i->content()||i->size()) fail( "content"+w); return;}
		if (i->size()!=seq[at].val.size()) fail( "size"+w+" is "+num( i->size())+" instead of "+num( seq[at].val.size()));
		if (t==XB::ErrorOccurred && (i->error()!=i->content() || seq[at].val!=i->error())) fail( "message"+w);
		if (at==pos && std::string( i->content(), i->size())!=seq[at].val) fail( "content"+w+" '"+show( std::string( i->content(), i->size()))+"' instead of '"+show( seq[at].val)+"'");
		count( "elements looked at");
	}
	template <class I> void same( const It<I>& a, const It<I>& b, const std::vector<Elem>& seq)
	{
		int t=type( a.at, seq), u=type( b.at, seq); bool e=t==u && (t==XB::None||t==XB::Exit);
		if ((a.i==b.i)!=e || (b.i==a.i)!=e || (a.i!=b.i)==e || (b.i!=a.i)==e) fail( "iterators on "+num( t)+" and "+num( u)+" compared as "+(a.i==b.i?"equal":"not equal")); count( e?"iterators compared as equal":"iterators compared as not equal");
	}
};
struct SelRun
{
	Rng& r; const pm::Doc& d; const std::vector<pm::Expr>& xs; uint64_t h; uint64_t hits;
	template <class CS> void go()
	{
		typedef pm::Lib<CS> L; typename L::Atm atm; for (auto& x:xs) L::define( r, atm, x);
		typename L::Sel sel( &atm), plain( &atm); typedef typename L::Sel::iterator I; std::vector<I> old;
		static_assert( std::is_same<typename std::iterator_traits<I>::iterator_category,std::input_iterator_tag>::value, "category");
		for (size_t i=0;i<d.ev.size();++i)
		{
			std::string k=L::bytes( d.ev[i].key); std::vector<int> want;
			for (I p=plain.push( (XB::ElementType)d.ev[i].type, k.data(), k.size()),e; p!=e; ++p) want.push_back( *p);
			I it=sel.push( (XB::ElementType)d.ev[i].type, k.data(), k.size()), fin; size_t at=0; std::vector<std::pair<I,int> > copies;
			for (;;)
			{
				int v=at<want.size()?want[at]:0; std::string w=" at result "+num(at)+" of element "+num(i);
				if (*it!=v || *it.operator->()!=v) fail( "the iterator yields "+num( *it)+" instead of "+num(v)+w);
				if ((it==fin)!=(v==0)||(fin==it)!=(v==0)||(it!=fin)==(v==0)||(fin!=it)==(v==0)) fail( "comparison with the end"+w);
				for (auto& c:copies) if (*c.first!=c.second || (c.first==it)!=(c.second==v) || (c.first!=it)==(c.second==v)) fail( "copy"+w);
				if (!v) break; ++hits;
				if (copies.size()<4 && r.chance(1,3)) {if (r.chance(1,2)) copies.push_back( std::make_pair( I( it), v)); else {I c; c=it; if (r.chance(1,2)) c.assign( it); copies.push_back( std::make_pair( c, v));} count( "iterators copied");}
				if (r.chance(1,3)) {I o=it++; if (*o!=v) fail( "postincrement returns an iterator on "+num( *o)+w); count( "postincrements");}
				else if (r.chance(1,5)) {I c( it); I& ret=++c; if (&ret!=&c) fail( "increment does not return the iterator"); it=c; count( "increments of a copy");}
				else {I& ret=++it; if (&ret!=&it) fail( "increment does not return the iterator"); count( "increments");}
				++at;
			}
			for (unsigned n=r.chance(1,6)?1+r.below(3):0; n; --n) {if (r.chance(1,2)) ++it; else it++; if (*it||it!=fin) fail( "incremented at the end it yields "+num( *it)); ++fin; if (*fin) fail( "the end incremented yields "+num( *fin)); count( "increments of an end");}
		}
		h=hits;
	}
};
void run( uint64_t idx, Rng& r)
{
	if (idx%4)
	{
		gd::Case c; gd::pickEnc( r, c); doc::Opt o; o.size=2+r.below( 16); gd::generate( r, c, o);
		if (r.chance(1,3)) {int in=c.in, page=c.page; gd::mutate( r, c.src, 1+r.below(3), [in,page]( char32_t x) {return enc::rep( in, x, page);}); c.bytes=enc::enc( c.src, c.in, c.page);}
		note( gd::describe( c)); if (idx<200&&idx%47==1&&c.src.size()<400) sample( gd::describe( c));
		ScanRun s={r,c,0,0}; cs::visit( c.in, s); if (s.elems>=3) distinct( s.h);
		return;
	}
	unsigned names=2+r.below(4); pm::DocGen g( r, names, 1+r.below(6), 8+r.below( 40)); g.generate(); pm::rescope( g.d);
	pm::ExprOpt o; o.ranges=r.chance(1,2); o.maxsteps=1+r.below(4); unsigned n=1+r.below( 8); std::vector<pm::Expr> xs;
	for (unsigned i=0;i<n;++i) xs.push_back( r.chance(3,5)?pm::genFrom( r, g.d, 1+i, o):pm::genExpr( r, names, 1+i, o));
	std::string head; for (auto& x:xs) head+=pm::show( x)+"\n"; int id=(int)r.below( enc::NofEnc);
	head=std::string("character set ")+enc::name(id)+"\n"+head+pm::show( g.d).substr( 0, 6000); note( head.substr( 0, 6000));
	SelRun s={r,g.d,xs,0,0}; cs::visit( id, s); if (s.hits) distinct( mix( hash( head), s.h));
}
}
