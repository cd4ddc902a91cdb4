// C06: feeding a document in chunks gives the same result as feeding it at once
#include "gendoc.hpp"
namespace vf {
const Check check={"C06",24000,400000,"(document, chunking) pairs with at least one chunk border inside of the document, distinct by source, character set and borders",0,30};
void init() { modes::detect( false); }
static uint64_t chash( const std::vector<size_t>& v, uint64_t h) {return hash( v.data(), v.size()*sizeof(size_t), h);}
void run( uint64_t idx, Rng& r)
{
	gd::Case c; gd::pickEnc( r, c);
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(12); o.maxdepth=1+r.below(4); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4); o.wellformed=false;
	if (idx%167==0) o.bigtext=doc::Gen::bigLen( r);
	gd::generate( r, c, o);
	if (r.chance(2,5)) {gd::mutate( r, c.src, 1+r.below(3), c.opt.ok); c.bytes=enc::enc( c.src, c.in, c.page); c.mutated=true;}
	if (r.chance(1,12) && !c.bytes.empty())
	{
		// ill-formed in the character set: single bytes changed or a truncated character
		c.mutated=true; for (unsigned k=r.below(3);k+1;--k) {if (r.chance(1,2)) c.bytes[ r.below( c.bytes.size())]=(char)r.below(256); else c.bytes.resize( r.below( c.bytes.size())+1);}
	}
	const std::string& b=c.bytes;
	scan::Req q; q.in=c.in; q.inPage=c.page; q.out=c.out; q.ents=o.ents; q.src=scan::WHOLE;
	if (r.chance(1,6)) {unsigned n=1+r.below(3); for (unsigned i=0;i<n;++i) q.masks.push_back( (unsigned short)r.below(0x10000));}
	std::string head=gd::describe( c)+"\nbytes "+num(b.size());
	note( head);
	scan::Res whole=scan::run( q, b);
	if (whole.limit) fail( "does not end");
	count( c.mutated?"malformed documents":"well-formed documents"); seen( "outcome and features", mix( c.features, whole.ev.empty()?0:whole.ev.back().err));
	seen( "input character sets and pages", c.in*16+c.page); maxv( "document bytes", b.size());
	if (idx<8 && b.size()<300) sample( head);
	auto check1=[&]( const std::vector<size_t>& cuts, int src, bool fe)
	{
		scan::Req p=q; p.src=src; p.cuts=cuts; p.finalEmpty=fe;
		std::string cs; for (size_t i=0;i<cuts.size()&&i<40;++i) cs+=" "+num(cuts[i]);
		note( head+"\n"+scan::srcName(src)+(fe?" with empty last chunk":"")+" cuts"+cs);
		scan::Res x=scan::run( p, b);
		bool pos=src==scan::PUTINPUT;
		std::string d=scan::diff( whole, x, false);
		if (!d.empty()) fail( "chunked differs from whole: "+d);
		if (pos && !c.mutated) {d=scan::diff( whole, x, true); if (!d.empty()) fail( "positions with putInput differ from whole: "+d); count( "position comparisons", x.ev.size());}
		count( src==scan::PUTINPUT?"chunkings with putInput":"chunkings with setSource"); count( "elements compared", x.ev.size()); count( "chunks fed", x.nchunks);
		if (!cuts.empty()) distinct( chash( cuts, hash( b)+src));
	};
	std::vector<size_t> cuts;
	if (b.size() <= (thorough()?700u:260u))
	{
		for (size_t i=0;i<=b.size();++i) {cuts.assign( 1, i); check1( cuts, (i+idx)&1?scan::PUTINPUT:scan::SETSOURCE, (i/2+idx)%3==0);}
		count( "documents with all single borders tried");
		cuts.clear(); for (size_t i=1;i<b.size();++i) cuts.push_back( i);
		check1( cuts, scan::SETSOURCE, r.chance(1,2)); check1( cuts, scan::PUTINPUT, r.chance(1,2));
	}
	for (int k=0;k<6;++k)
	{
		cuts.clear();
		switch (k)
		{
			case 0: {size_t s=1+r.below(9); for (size_t i=s;i<b.size();i+=s) cuts.push_back( i); break;}
			case 1: {size_t i=0; while (i<=b.size()) {cuts.push_back(i); i+=r.below(4);if (cuts.size()>100000) break;} break;}		// with empty chunks
			case 2: {size_t i=0; for (;;) {i+=r.below(60); if (i>=b.size()) break; cuts.push_back(i);} break;}
			case 3: {size_t a=r.below( b.size()+1), e=r.below( b.size()+1); cuts.push_back( std::min(a,e)); cuts.push_back( std::max(a,e)); break;}
			case 4: cuts.push_back( 0); cuts.push_back( 0); cuts.push_back( r.below( b.size()+1)); break;
			default: // around interesting places
			{
				std::vector<size_t> offs=enc::offsets( c.src, c.in, c.page);
				for (size_t p:c.cutpoints) {if (p>=offs.size()) continue; size_t x=offs[p]+r.below(3); if (x>0) x-=r.below(2); if (x>b.size()) x=b.size(); if (r.chance(1,2) && (cuts.empty()||cuts.back()<=x)) cuts.push_back( x);}
			}
		}
		check1( cuts, r.chance(1,2)?scan::SETSOURCE:scan::PUTINPUT, r.chance(1,3));
	}
}
}
