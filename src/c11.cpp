// C11: masking out elements changes nothing but the masked texts
#include "gendoc.hpp"
namespace vf {
const Check check={"C11",120000,1500000,"distinct (document, mask sequence) pairs where at least one element is masked and one is not",0,30};
void init() { modes::detect( false); }
void run( uint64_t idx, Rng& r)
{
	gd::Case c; gd::pickEnc( r, c);
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(16); o.maxdepth=1+r.below(5); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4); o.wellformed=false;
	if (idx%97==0) o.bigtext=doc::Gen::bigLen( r);
	gd::generate( r, c, o);
	if (r.chance(1,3)) {gd::mutate( r, c.src, 1+r.below(2), c.opt.ok); c.mutated=true; c.bytes=enc::enc( c.src, c.in, c.page);}
	note( gd::describe( c));
	scan::Req q; q.in=c.in; q.inPage=c.page; q.out=c.out; q.ents=o.ents;
	scan::Res base=scan::run( q, c.bytes);
	if (base.limit||base.thrown) fail( "does not end "+base.what);
	bool undefent = base.ev.back().type==doc::ErrorOccurred && base.ev.back().err==doc::ErrUndefinedCharacterEntity;
	for (int k=0;k<6;++k)
	{
		scan::Req m=q;
		switch (k)
		{
			case 0: m.masks.push_back( 0); break;
			case 1: m.masks.push_back( (unsigned short)(1<<(2+r.below(12)))); break;
			case 2: m.masks.push_back( (unsigned short)~(1<<(2+r.below(12)))); break;
			case 3: for (int i=0;i<7;++i) m.masks.push_back( r.chance(1,2)?0:0xFFFF); break;
			case 4: m.masks.push_back( (1<<doc::Content)|(1<<doc::OpenTag)); break;
			default: {unsigned n=1+r.below(9); for (unsigned i=0;i<n;++i) m.masks.push_back( (unsigned short)r.below(0x10000));}
		}
		if (r.chance(1,3)) {m.src=r.chance(1,2)?scan::PUTINPUT:scan::WHOLE; if (m.src==scan::PUTINPUT) {size_t i=0; for (;;) {i+=1+r.below(30); if (i>=c.bytes.size()||m.cuts.size()>2000) break; m.cuts.push_back(i);}}}
		std::string ms; for (auto x:m.masks) ms+=" "+num(x);
		note( gd::describe( c)+"\nmasks"+ms+" "+scan::srcName(m.src));
		scan::Res x=scan::run( m, c.bytes);
		if (x.thrown||x.limit) fail( "scan with mask does not end "+x.what);
		size_t n=base.ev.size(); if (undefent) --n; // a masked text is not evaluated and has no undefined entities
		if (x.ev.size()<n || (!undefent && x.ev.size()!=n)) fail( "number of elements with mask "+num(x.ev.size())+" without "+num(base.ev.size())+"\nwithout: "+scan::show( base, n<5?0:n-5)+"\nwith: "+scan::show( x, x.ev.size()<5?0:x.ev.size()-5));
		bool anym=false,anyu=false;
		for (size_t i=0;i<n;++i)
		{
			const scan::Item& a=base.ev[i]; const scan::Item& b=x.ev[i]; std::string w;
			if (a.type!=b.type) w="element type"; else if (a.err!=b.err) w="error"; else if (a.pos!=b.pos) w="position of the scanner"; else if (!b.masked && a.val!=b.val) w="text of an element not masked"; else if (!b.masked && a.type!=doc::ErrorOccurred && a.tokpos!=b.tokpos) w="token position of an element not masked";
			if (!w.empty()) fail( w+" of element "+num(i)+" differs\nwithout: "+scan::show( base, i<3?0:i-3, 7)+"\nwith mask: "+scan::show( x, i<3?0:i-3, 7));
			if (b.masked) anym=true; else anyu=true;
			count( b.masked?"masked elements":"elements not masked");
			if (b.masked) seen( "masked element types", b.type);
		}
		if (anym&&anyu) distinct( hash( c.bytes)+hash( m.masks.data(), m.masks.size()*2));
	}
	count( c.mutated?"malformed documents":"well-formed documents"); maxv( "document bytes", c.bytes.size());
	if (idx<8 && c.bytes.size()<300) sample( gd::describe(c));
}
}
