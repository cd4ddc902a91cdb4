// C14: the printer keeps tags balanced and refuses calls that do not fit
#include "printmodel.hpp"
namespace vf {
extern const Check check;
const Check check={"C14",120000,3000000,"distinct (character sets, call sequence) pairs with refused and accepted calls",0,60};
void init() {}
void run( uint64_t idx, Rng& r)
{
	int out=r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc), page=out==enc::ISO?1+(int)r.below(9):1, app=r.chance(1,2)?(int)enc::UTF8:(int)r.below( enc::NofEnc);
	pm::Sim s( r, out, page, app, r.chance(1,3), r.chance(1,12)?(int)prn::MULTI:(int)r.below(2)); s.maxtext=4; s.big=idx%1009==5;
	note( std::string(enc::name(app))+" to "+enc::name(out)+" page "+num(page)+(s.sub?" fragment":" document"));
	unsigned rounds=1+r.below(3);
	for (unsigned k=0;k<rounds;++k)
	{
		unsigned n=1+r.below( 30); for (unsigned i=0;i<n;++i) s.step();
		if (idx%203==0 && (s.sub||!s.root||!s.stack.empty())) {unsigned d=r.chance(1,20)?r.chance(1,4)?66000:10000:r.below(600); if (s.st==pm::Sim::Init) s.header(); if (s.st==pm::Sim::Att) s.value(); for (unsigned i=0;i<d;++i) {s.open(); if (r.chance(1,100)) s.attr(); if (s.st==pm::Sim::Att) s.value();} maxv( "depth", s.stack.size());}
		for (unsigned i=0;i<n/3;++i) s.step();
		if (k+1<rounds && r.chance(1,2)) {s.restart( r.chance(1,2)); count( "resets in the middle of a document"); continue;}
		bool fin=!(s.st==pm::Sim::Init&&r.chance(1,2)); 
		if (fin) {s.finish(); s.verify(); s.close(); s.close(); s.attr(); s.verify();}	// close and attribute calls behind the end are refused
		maxv( "depth", s.stack.size());
		if (k+1<rounds) {s.restart( r.chance(1,2)); count( "resets");}
	}
	distinct( hash( s.trace)+out*31+page+app*1009); count( "calls accepted", s.nok); count( "calls refused", s.nbad);
	if (idx<40&&idx%9==0) sample( s.trace.substr(0,300));
}
}
