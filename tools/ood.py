import sys; sys.path[:0]=['/verif/lib','/verif/checks']
import props, core
pid=sys.argv[1]
ctx=core.Ctx(pid,'quick',1)
o=core.Ctx._check
def chk(self,cases):
    o(self,cases)
    for c in cases:
        if c.verdict and c.verdict.kind=='ood':
            self.l=getattr(self,'l',0)+1
            if self.l<=int(sys.argv[2]): print('=====',c.note,c.verdict.detail,c.res.code); print(c.src[:700]); print('out',repr(c.res.out[-80:]))
core.Ctx._check=chk
props.CHECKS[pid](ctx)
