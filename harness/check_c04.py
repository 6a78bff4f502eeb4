"""C04: boundary faces are shared out among the marks without loss or overlap."""
import big
import life
from common import pmap

ASSUMPTIONS = ['a mesh whose marks overlap may be refused at any preparation step']


def run(ctx):
    q = ctx.quick
    ctx.mc('MarkAlg')
    pairs = ctx.gen('MarkAlg', 'MarkAlgGen', workers=4)
    ctx.rng.shuffle(pairs)
    jobs = [(f't{i}', 'tetra4', s, ctx.rng.randrange(1 << 30)) for i, s in enumerate(pairs[: 250 if q else len(pairs)])]
    pairs = ctx.gen('MarkAlg', 'MarkAlgGenPrism', workers=4)
    ctx.rng.shuffle(pairs)
    jobs += [(f'p{i}', 'prism6', s, ctx.rng.randrange(1 << 30)) for i, s in enumerate(pairs[: 250 if q else len(pairs)])]
    cases = pmap(life.mark_case, jobs)
    plans = life.longest(ctx.gen('GenLife', 'GenLifeMark', simulate=(150 if q else 2000, 20)))
    wd = ctx.subdir('files')
    jobs = [(f'l{i}', p, ctx.rng.randrange(1 << 30), wd) for i, p in enumerate(plans)]
    cases += pmap(life.run_plan, jobs)
    ctx.validate('MeshTrace', cases)
    big.judge(ctx, big.faces_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30), '') for i, d in enumerate(big.sizes(ctx))])
