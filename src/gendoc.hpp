// Generated document in some character set, with mutations
#pragma once
#include "modes.hpp"
namespace gd {
using vf::Rng;
struct Case
{
	int in, page, out; doc::Opt opt; doc::U src; doc::Evs ev; uint64_t features; bool mutated; std::string bytes; std::vector<size_t> cutpoints;
	std::vector<std::pair<size_t,size_t> > markup;
};
inline const doc::Ents& ents() {static const doc::Ents e=doc::defaultEnts(); return e;}
inline void pickEnc( Rng& r, Case& c)
{
	c.in=r.chance(1,5)?(int)enc::UTF8:(int)r.below( enc::NofEnc); c.page=c.in==enc::ISO?1+(int)r.below(9):1;
	switch (r.below(3)) {case 0: c.out=c.in; break; case 1: c.out=enc::UTF8; break; default: c.out=(int)r.below( enc::NofEnc);}
}
inline void generate( Rng& r, Case& c, const doc::Opt& o)
{
	c.opt=o; int in=c.in, page=c.page;
	c.opt.ok=[in,page]( char32_t x) {return enc::rep( in, x, page);};
	doc::Gen g( r, c.opt); g.document();
	c.src.swap( g.src); c.ev.swap( g.ev); c.features=g.features; c.mutated=false; c.cutpoints.swap( g.cutpoints); c.markup.swap( g.markup);
	c.bytes=enc::enc( c.src, c.in, c.page);
}
// syntax violating (or harmless) changes on code points
inline void mutate( Rng& r, doc::U& s, unsigned n, const std::function<bool(char32_t)>& ok)
{
	static const std::u32string sp=U"<>&/-!?'\"[]= \r\n\t;#xa1\x05\x07";
	for (unsigned i=0;i<n && !s.empty();++i)
	{
		size_t p=r.below( s.size());
		// prefer positions at markup
		if (r.chance(2,3)) for (int k=0;k<60;++k) {size_t q=r.below( s.size()); if (doc::Ref::special( s[q])) {p=q; break;}}
		switch (r.below(8))
		{
			case 0: s.erase( p, 1); break;
			case 1: s.erase( p, 1+r.below(4)); break;
			case 2: s.insert( p, 1, r.pickc( sp)); break;
			case 3: s[p]=r.pickc( sp); break;
			case 4: s.resize( p); break;
			case 5: {size_t q=r.below( s.size()); std::swap( s[p], s[q]); break;}
			case 6: {size_t l=1+r.below(12); doc::U x=s.substr( p, l); s.insert( r.below( s.size()), x); break;}
			default: {static const char* w[]={"<!--","-->","<![CDATA[","]]>","<?xml","?>","<!DOCTYPE","&#","&#x","&lt;","&amp","&x;","]>","--","/>","</","\r\n","<?","<!","&#x41;","&nosuch;","&;","&#xg;","<?x"}; s.insert( p, enc::asc( w[r.below( sizeof(w)/sizeof(*w))])); break;}
		}
	}
	for (auto& c:s) if (c>=128 && !ok(c)) c='z';
}
inline std::string describe( const Case& c)
{
	return std::string("input ")+enc::name(c.in)+" page "+vf::num(c.page)+" output "+enc::name(c.out)+" entities "+(c.opt.ents?"yes":"no")+"\nsource (as UTF-8): "+vf::show( enc::u8( c.src), 2500);
}
}
