from common import *
import dataspec as D
def check():
    C=Check('C12'); D.lay()
    for n in range(3):
        for h in[None]+list(range(n)): C.unit('segment(), %d cached, %s'%(n,'not cached' if h is None else 'number %d is cached'%h),D.unit_segment(n,h))
        C.unit('~DataAccess, %d cached'%n,D.unit_destroy(n))
    C.unit('DataAccess()',D.unit_fresh)
    C.prove(os.environ.get('ONLY'))
    exe=D.harness(C); D.scenes(C,exe,40 if C.quick else 300,'sequence of segment requests',cols=2)
    return C.finish(rule='one image on disk and one sequence of requests, with files going away and coming back')
if __name__=="__main__": main(check)
