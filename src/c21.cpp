// C21: fixed size buffers and the tag stack against sequence models
#include "vf.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/xmltagstack.hpp"
#include <memory>
namespace vf {
const Check check={"C21",60000,8000000,"distinct sequences of operations on a buffer or a stack",0,30};
using textwolf::StaticBuffer; using textwolf::TagStack; using textwolf::throws_exception;
void init() {}
struct Buf
{
	std::unique_ptr<StaticBuffer> b; std::string m; size_t cap; bool ovf, flexible; char* mem;	// mem: memory of the user
	Buf() :cap(0),ovf(false),flexible(false),mem(0) {}
	~Buf() {b.reset(); free( mem);}
};
static void checkBuf( Buf& x, const char* when)
{
	StaticBuffer& b=*x.b; std::string at=std::string(" after ")+when;
	if (b.size()!=x.m.size()) fail( "size() "+num(b.size())+" instead of "+num(x.m.size())+at);
	if (b.size() && memcmp( b.ptr(), x.m.data(), x.m.size())!=0) fail( "content '"+show( std::string( b.ptr(), b.size()), 60)+"' instead of '"+show( x.m, 60)+"'"+at);
	if (!x.flexible && b.overflow()!=x.ovf) fail( std::string("overflow() ")+(b.overflow()?"true":"false")+at);
}
static bool throwsAt( Buf& x, size_t i, bool ref, char& c)
{
	try {c=ref?x.b->at( i):(*x.b)[i]; return false;} catch (const textwolf::exception& e) {if (e.cause!=throws_exception::DimOutOfRange) fail( "wrong cause of the exception"); return true;}
}
static uint64_t buffers( Rng& r)
{
	uint64_t h=1; Buf x[3]; unsigned used=1; std::string trace;
	auto make=[&]( Buf& y)
	{
		y.b.reset(); free( y.mem); y.mem=0; y.flexible=false; y.ovf=false; y.m.clear(); y.cap=r.chance(1,10)?r.below(3):r.chance(1,10)?1000+r.below( 70000):r.below( 64);
		if (r.chance(1,2)) {y.b.reset( new StaticBuffer( y.cap)); trace+=" new("+num(y.cap)+")";}
		else
		{
			size_t i=r.chance(1,3)?r.below( y.cap+1):0; y.mem=(char*)malloc( y.cap?y.cap:1); for (size_t k=0;k<y.cap;++k) y.mem[k]=(char)r.below(256); y.m.assign( y.mem, i);
			if (i||r.chance(1,2)) y.b.reset( new StaticBuffer( y.mem, y.cap, i)); else y.b.reset( new StaticBuffer( y.mem, y.cap)); trace+=" new(p,"+num(y.cap)+","+num(i)+")";
		}
		checkBuf( y, "construction");
	};
	make( x[0]); unsigned n=1+r.below( r.chance(1,10)?400:40);
	for (unsigned k=0;k<n;++k)
	{
		unsigned xi=r.below( used); Buf& y=x[xi]; unsigned op=r.below(12); h=mix( h, op*4+xi); note( "static buffer:"+trace+" op "+num(op)+" on "+num(xi)+" ("+show( y.m, 100)+" of "+num(y.cap)+")"); count( "operations on buffers");
		switch (op)
		{
			case 0: case 1: case 2: {unsigned c=r.chance(1,4)?1+r.below(80):1; while (c--) {char ch=(char)r.below(256); y.b->push_back( ch); if (y.m.size()<y.cap) y.m+=ch; else {y.ovf=true; y.flexible=false; count( "overflows");}} break;}
			case 3: case 4: {
				size_t l=r.chance(1,3)?r.below( 3):r.chance(1,3)&&y.cap>=y.m.size()?y.cap-y.m.size()+(int)r.below(3):r.below( 100); if (r.chance(1,3) && l) --l;
				char* p=(char*)malloc( l?l:1); for (size_t i=0;i<l;++i) p[i]=(char)r.below(256); y.b->append( p, l);
				size_t fit=std::min( l, y.cap-y.m.size()); y.m.append( p, fit); free( p); if (fit<l) {y.ovf=true; y.flexible=false; count( "overflows");} h=mix( h, l); break;}
			case 5: y.b->clear(); y.m.clear(); y.ovf=false; y.flexible=false; break;
			case 6: case 7: {
				size_t l=r.chance(1,2)?r.below( y.cap+3):r.below( y.m.size()+1); char c=(char)r.below(256); bool def=r.chance(1,4); if (def) {c=0; y.b->resize( l);} else y.b->resize( l, c);
				if (l>y.cap && !y.ovf) y.flexible=true;	// (not specified if enlarging beyond the capacity counts as overflow)
				y.m.resize( std::min( l, y.cap), c); h=mix( h, l); break;}
			case 8: {
				for (unsigned t=0;t<4;++t)
				{
					size_t i=r.chance(1,2)?r.below( y.m.size()+1):y.m.size()+r.below(3); if (r.chance(1,20)) i=(size_t)-1-r.below(3); if (r.chance(1,10)) i=y.cap+r.below(3); char c=0; bool thrown=throwsAt( y, i, r.chance(1,2), c); count( "index accesses");
					if (thrown!=(i>=y.m.size())) fail( "index "+num(i)+(thrown?" refused":" accepted")+" with "+num(y.m.size())+" elements"); if (thrown) count( "index accesses refused"); else if (c!=y.m[i]) fail( "wrong element at "+num(i));
				} break;}
			case 9: if (!y.m.empty()) {size_t i=r.below( y.m.size()); char c=(char)r.below(256); y.b->at( i)=c; y.m[i]=c;} break;
			case 10: {
				Buf& z=x[ r.below(3)]; if (&z==&y) {StaticBuffer& self=*y.b; *y.b=self; trace+=" self="; break;}
				bool assign=(size_t)(&z-x)<used && r.chance(1,2);
				if (assign) *z.b=*y.b; else {size_t zi=&z-x; if (zi>used) {Buf& w=x[used]; w.b.reset( new StaticBuffer( *y.b)); w.m=y.m; w.cap=y.cap; w.ovf=y.ovf; w.flexible=y.flexible; ++used; count( "copies"); break;} z.b.reset( new StaticBuffer( *y.b)); free( z.mem); z.mem=0; if (zi==used) ++used;}
				z.m=y.m; z.cap=y.cap; z.ovf=y.ovf; z.flexible=y.flexible; count( "copies"); break;}
			default: if (r.chance(1,4)) make( y);
		}
		for (unsigned i=0;i<used;++i) {checkBuf( x[i], "operation"); seen( "states of buffers (capacity, fill, overflow)", mix( x[i].cap, x[i].m.size()*2+x[i].ovf)); if (x[i].mem && !x[i].m.empty() && x[i].b->ptr()==x[i].mem && memcmp( x[i].mem, x[i].m.data(), x[i].m.size())) fail( "content not in the memory passed");}
	}
	return h;
}
static void checkStack( TagStack& s, const std::vector<std::string>& m)
{
	if (s.empty()!=m.empty()) fail( std::string("empty() ")+(m.empty()?"false":"true"));
	const void* e=0; size_t n=77; bool t=s.top( e, n); if (t!=!m.empty()) fail( std::string("top() ")+(t?"true":"false")+" with "+num(m.size())+" elements");
	if (t && (n!=m.back().size() || memcmp( e, m.back().data(), n)!=0)) fail( "top() '"+show( std::string( (const char*)e, n), 80)+"' instead of '"+show( m.back(), 80)+"'");
}
static uint64_t stacks( Rng& r)
{
	uint64_t h=2; std::unique_ptr<TagStack> s( new TagStack()), other; std::vector<std::string> m, om; unsigned n=1+r.below( r.chance(1,8)?2000:60); size_t bytes=0; unsigned bias=3+r.below(5);
	if (r.chance(1,200)) for (unsigned d=r.chance(1,2)?300:66000;d;--d) {size_t l=r.below(4); std::string t( l, 'a'+(char)r.below(26)); s->push( t.data(), l); m.push_back( t); bytes+=l;}	// (deeper than a 16 bit counter)
	for (unsigned k=0;k<n;++k)
	{
		unsigned op=r.below(10); count( "operations on stacks"); note( "tag stack with "+num(m.size())+" elements, operation "+num(op)+", top '"+show( m.empty()?std::string("-"):m.back(), 100)+"'");
		if (op<bias && bytes<4000000)
		{
			size_t l=r.chance(1,3)?r.below(20):r.chance(1,2)?r.below(300):r.chance(1,30)?r.below(70000):r.below(9); char* p=(char*)malloc( l?l:1); for (size_t i=0;i<l;++i) p[i]=(char)(r.chance(1,4)?0:r.below(256)); s->push( p, l); m.push_back( std::string( p, l)); free( p); bytes+=l; h=mix( h, l); maxv( "length of a tag", l);
		}
		else if (op<8) {if (m.empty()) count( "pops from the empty stack"); s->pop(); if (!m.empty()) {bytes-=m.back().size(); m.pop_back();} h=mix( h, 1000001);}
		else if (op==8)
		{
			switch (r.below(6)) {case 0: other.reset( new TagStack( *s)); om=m; break; case 1: if (other) {*other=*s; om=m;} break; case 2: {TagStack& self=*s; *s=self; break;} case 3: if (other) {s.swap( other); m.swap( om); bytes=0; for (auto& e:m) bytes+=e.size();} break; case 4: if (r.chance(1,10)) {s->clear(); m.clear(); bytes=0;} break; default: other.reset();} h=mix( h, 1000002);
		}
		checkStack( *s, m); if (other) checkStack( *other, om); maxv( "depth of a stack", m.size()); seen( "sizes of stacks in bytes", bytes);
	}
	while (!m.empty()) {checkStack( *s, m); s->pop(); m.pop_back(); count( "operations on stacks");} checkStack( *s, m);
	while (other && !om.empty()) {checkStack( *other, om); other->pop(); om.pop_back();}
	return h;
}
// the memory of buffers and stacks: what they allocated is released when they end, memory of the user is never released
static void balance( Rng& r)
{
	char mem[2][ 40]; memset( mem, 'm', sizeof(mem)); unsigned plan[ 12]; for (unsigned& p:plan) p=r.below( 1u<<20); size_t cap=1+r.below( 40); note( "memory of buffers and stacks");
	const int64_t before=liveAllocs();
	{
		StaticBuffer a( mem[0], cap), b( mem[1], 1+cap/2, cap/2), c( cap), d( 1+cap/3); StaticBuffer* bb[4]={&a,&b,&c,&d}; TagStack s, t;
		for (unsigned p:plan)
		{
			StaticBuffer &x=*bb[ p%4], &y=*bb[ p/4%4];
			switch (p/16%6) {case 0: case 1: x=y; break; case 2: {StaticBuffer z( x); z=y; z.push_back( 'z'); break;} case 3: x.append( "0123456789", p/128%11); break; case 4: s.push( "tag", p/128%4); t=s; break; default: {TagStack u( t); u.pop(); u.push( "xyz", 3); s=u;}}
		}
		for (StaticBuffer* x:bb) {x->clear(); x->push_back( 'e');}
	}
	const int64_t after=liveAllocs(); count( "balances of memory");
	if (after!=before) fail( num( after-before)+" allocations not released by buffers and stacks");
}
void run( uint64_t, Rng& r)
{
	uint64_t h=r.chance(1,2)?buffers( r):stacks( r); distinct( h); balance( r);
}
}
