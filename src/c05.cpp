// C05: well-formed documents are reported completely and in document order
#include "modes.hpp"
namespace vf {
const Check check={"C05",200000,4000000,"distinct documents containing at least one construct beyond plain tags (features x source text)",0,20};
void init() { modes::detect( true); }
void run( uint64_t idx, Rng& r)
{
	static const doc::Ents ents=doc::defaultEnts();
	doc::Opt o; o.ents=r.chance(1,2)?&ents:0; o.size=r.chance(1,10)?80:4+r.below(16); o.maxdepth=1+r.below(8); o.ctrl=r.chance(1,4); o.unquoted=false;
	if (idx%97==0) o.bigtext=doc::Gen::bigLen( r);
	if (idx%131==0) o.deep=100+r.below(1500);
	if (r.chance(1,30)) {o.names={U"a",U"xml",U"DOCTYPE",U"CDATA",U"x"};}
	doc::Gen g( r, o); g.document();
	std::string src=enc::u8( g.src);
	note( show( src, 3000));
	// the generator and the reference scanner have to agree, else the machinery is wrong
	doc::Evs ref=doc::refscan( g.src, o.ents);
	bool agree=ref.size()==g.ev.size(); for (size_t i=0;agree&&i<ref.size();++i) agree=ref[i].type==g.ev[i].type && ref[i].val==g.ev[i].val && (ref[i].type==doc::HeaderStart||(ref[i].start==g.ev[i].start && ref[i].end==g.ev[i].end));
	if (!agree && verbose()) fprintf( stderr, "%s\nGEN %s\nREF %s\n", show(src,500).c_str(), doc::show(g.ev,0,30).c_str(), doc::show(ref,0,30).c_str());
	if (!agree) count( "documents the reference models disagree about (not judged)");
	else
	{
		scan::Req q; q.ents=o.ents; q.useIterator=r.chance(1,4); q.extraCalls=(!q.useIterator&&r.chance(1,4))?2:0;
		scan::Res res=scan::run( q, src);
		if (q.extraCalls && !res.thrown && !res.limit)
		{
			for (int k=0;k<q.extraCalls;++k) {if (res.ev.size()<2 || res.ev.back().type!=doc::Exit || res.ev[res.ev.size()-2].type!=doc::Exit) fail( "call after the end does not report the end again: "+scan::show( res, res.ev.size()<5?0:res.ev.size()-5)); res.ev.pop_back();}
			count( "calls after the end", q.extraCalls);
		}
		std::string d=scan::compare( res, g.ev, enc::UTF8);
		if (!d.empty()) fail( d);
		count( "elements compared", res.ev.size()); for (auto& e:g.ev) {seen( "element types", e.type); maxv( (std::string("characters of ")+doc::typeName( e.type)).c_str(), e.val.size());}
		maxv( "document bytes", src.size()); maxv( "elements", res.ev.size());
		count( "documents");
	}
	for (int f=0;f<20;++f) if (g.features>>f&1) seen( "generator features", f);
	seen( "feature combinations", g.features);
	if (g.features) distinct( hash( src));
	if (idx<16 && src.size()<400) sample( src);
}
}
