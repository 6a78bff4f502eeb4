"""C02: a mesh written to an IC3 restart file and read back is the same mesh."""
import big
import life
from common import pmap

ASSUMPTIONS = ['marks have at least one face', 'names have at most 52 ASCII characters']


def run(ctx):
    plans = life.longest(ctx.gen('GenLife', 'GenLifeCycle', simulate=(250 if ctx.quick else 900, 20)))
    wd = ctx.subdir('files')
    jobs = [(f'l{i}', p, ctx.rng.randrange(1 << 30), wd) for i, p in enumerate(plans)]
    cases = pmap(life.run_plan, jobs)
    ctx.validate('MeshTrace', cases)
    big.judge(ctx, big.file_case, [(f'big{i}-{v}', d, ctx.rng.randrange(1 << 30), wd, v) for i, d in enumerate(big.sizes(ctx)) for v in (2, 3)])
