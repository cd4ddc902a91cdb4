// C09: the scan result does not depend on input and output character sets
#include "gendoc.hpp"
namespace vf {
const Check check={"C09",240000,4000000,"distinct (document, input character set and page, output character set) triples with characters outside of ASCII",0,30};
void init() { modes::detect( false); }
void run( uint64_t idx, Rng& r)
{
	gd::Case c; gd::pickEnc( r, c); c.out=(int)r.below( enc::NofEnc);
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(16); o.maxdepth=1+r.below(5); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4);
	if (idx%211==0) o.bigtext=doc::Gen::bigLen( r);
	gd::generate( r, c, o);
	if (r.chance(1,4)) {gd::mutate( r, c.src, 1+r.below(2), c.opt.ok); c.mutated=true; c.bytes=enc::enc( c.src, c.in, c.page);}
	note( gd::describe( c));
	// baseline: the same characters in UTF-8
	scan::Req b; b.ents=o.ents; scan::Res base=scan::run( b, enc::u8( c.src));
	if (base.thrown||base.limit) fail( "baseline does not end: "+base.what);
	doc::Evs ev; bool judged=true;
	for (auto& e:base.ev)
	{
		doc::U u; if (e.type!=doc::ErrorOccurred && !enc::dec( e.val, enc::UTF8, u)) fail( "text reported in UTF-8 is not UTF-8: "+show(e.val));
		ev.push_back( doc::Ev( e.type, u, 0, 0)); ev.back().err=e.err;
	}
	if (!c.mutated)
	{
		// the baseline itself has the characters written
		if (ev.size()!=c.ev.size()) judged=false;
		else for (size_t i=0;judged&&i<ev.size();++i) if (ev[i].type!=c.ev[i].type) judged=false; else if (ev[i].val!=c.ev[i].val) fail( "text of element "+num(i)+" in UTF-8 is '"+show(enc::u8(ev[i].val))+"' instead of '"+show( enc::u8( c.ev[i].val))+"'");
		if (!judged) count( "documents with another structure than generated (see C05)");
	}
	for (int k=0;k<2;++k)
	{
		scan::Req q; q.in=c.in; q.inPage=c.page; q.out=c.out; q.ents=o.ents;
		if (k==1) {if (r.chance(1,2)) q.out=c.in; else {q.out=enc::UTF8; static const int bufs[]={scan::STATIC,scan::VECTOR}; q.buf=bufs[r.below(2)]; q.cap=c.bytes.size()*12+64;}}
		scan::Res x=scan::run( q, c.bytes);
		std::string d=scan::compare( x, ev, q.out);
		if (!d.empty()) fail( std::string("output ")+enc::name(q.out)+" differs from the result of the same document in UTF-8: "+d);
		uint64_t refs=0;
		for (auto& e:x.ev) {if (e.type==doc::ErrorOccurred) continue; if (e.val.size()%enc::unit( q.out)) fail( "size of a text is not a multiple of the unit size"); if (!e.term) fail( "the text of an empty element does not point to a null of the output character set"); if (e.val.empty()) count( "empty texts checked for the null"); count( "characters compared", e.val.size()/enc::unit(q.out));}
		for (auto& e:ev) for (char32_t ch:e.val) if (!enc::rep( q.out, ch, 1)) ++refs;
		count( "characters expected as references", refs);
		count( "elements compared", x.ev.size());
		seen( "pairs of character sets", (c.in*10+c.page)*16+q.out);
		bool na=false; for (char32_t ch:c.src) if (ch>127) na=true;
		if (na) distinct( hash( c.bytes)*31+(c.in*10+c.page)*16+q.out);
	}
	count( c.mutated?"malformed documents":"well-formed documents"); maxv( "document bytes", c.bytes.size());
	if (idx<8 && c.bytes.size()<300) sample( gd::describe(c));
}
}
