from common import *
import hrithdr as H_, contracts
SRCS=lambda: ['msat/hrit/'+f for f in sorted(os.listdir(REPO+'/msat/hrit')) if f.endswith('.cpp') and f.startswith('MSG_') and f not in('MSG_data_image.cpp','MSG_HRIT.cpp')]+['msat/facts.cpp',H('stub_image.cpp')]
def check():
    C=Check('C03')
    H_.lay()
    C.unit('MSG_header::read_from: walk terminates inside the header',H_.unit_walk)
    for c in('MSG_header_image_struct','MSG_header_timestamp','MSG_header_key','MSG_header_segment_id'): C.unit(c+'::read_from stays in its record',H_.unit_fixed(c))
    C.unit('MSG_segment_quality::set stays in its entry',H_.unit_fixed('MSG_segment_quality','set'))
    C.unit('MSG_header_segment_quality::read_from stays in its record',H_.unit_quality_loop)
    C.unit('MSG_header_image_navig::read_from stays in its record',H_.unit_projection)
    for r in range(4): C.unit('MSG_header_annotation::read_from refuses or stays in its record (texts of %d, %d, ... characters)'%(r,r+4),H_.unit_annotation(tuple(range(r,62,4))))
    for c in('MSG_header_image_datafunc','MSG_header_ancillary_text'): C.unit(c+'::read_from refuses or stays in its record',H_.unit_text(c))
    C.prove(os.environ.get('ONLY'))
    exe=C.native('hdr',[H('hdr.cpp')]+SRCS(),extra=('-fno-strict-aliasing','-fno-sanitize=enum,bool'))
    rnd=C.rnd; cases=[b'',b'\0',b'\0\0\x10',b'\0\0\x10'+bytes(12),b'\0\0\x10'+bytes(13)]
    for k in range(2500 if C.quick else 40000):
        h=H_.damage(rnd,H_.header(rnd))
        if rnd.random()<.3: h=H_.damage(rnd,h)
        cases.append(h)
    for k in range(200 if C.quick else 3000): cases.append(rnd.randbytes(rnd.randint(0,400)))
    cases+=H_.long_headers(rnd)
    outs=C.run_cases(exe,[b.hex() for b in cases],per=10.0)
    def cmp(b,o,what='parse'):
        w=H_.parse(b)
        bad=o.startswith(('CRASH','HANG','THROWN'))
        if bad or not H_.match(o,w): C.expect(what,b.hex(),o,'|'.join(w or ['EXC']))
        else: C.expect(what,b[:300],'refused' if w is None else 'decoded','refused' if w is None else 'decoded')
    for b,o in zip(cases,outs): cmp(b,o)
    def replay(case,r):
        c,b=case
        if c=='MSG_segment_quality': h=b'\x01\0\x09\x08\0\1\0\1\0'+b'\x81\0\x10'+b
        else:
            h=bytearray(b); h[0]=H_.REC[c][0]; h[1:3]=H_.REC[c][1].to_bytes(2,'big'); h=bytes(h)
        h=b'\0\0\x10\0'+(16+len(h)).to_bytes(4,'big')+bytes(8)+h
        cmp(h,C.run_cases(exe,[h.hex()])[0],'counterexample of '+r['name'])
    return C.finish(replayer=replay,rule='one damaged or random byte string parsed as a header; distinct by content')
main(check)
