// C13: what the printer writes reads back as what was printed
#include "printmodel.hpp"
namespace vf {
extern const Check check;
const Check check={"C13",400000,3000000,"distinct (character sets, printed tree) pairs with at least one element",0,60};
void init() {}
void run( uint64_t idx, Rng& r)
{
	int out=r.below( enc::NofEnc), page=out==enc::ISO?1+(int)r.below(9):1, app=idx%3==0?(int)enc::UTF8:(int)r.below( enc::NofEnc);
	pm::Sim s( r, out, page, app, r.chance(1,3), r.chance(1,12)?(int)prn::MULTI:(int)r.below(2)); s.badcalls=false; s.maxtext=r.chance(1,20)?200:14; s.big=idx%1009==5;
	note( std::string(enc::name(app))+" to "+enc::name(out)+" page "+num(page)+(s.sub?" fragment":" document"));
	unsigned n=1+r.below( r.chance(1,20)?300:40); for (unsigned k=0;k<n;++k) s.step();
	s.finish(); s.verify();
	distinct( s.hash()); count( s.sub?"fragments":"documents"); count( "calls", s.nok); seen( "character set pairs", app*100+out*10+page);
	if (idx<40&&idx%9==0) sample( std::string(enc::name(app))+" to "+enc::name(out)+": "+show( s.p->out(),250));
}
}
