"""C03: fields stored in IC3 files come back with same name, place, shape and values."""
import big
import life
from common import pmap

ASSUMPTIONS = ['version 3: fields are float64 or int64', 'several degrees of freedom per cell in version 3 only',
               'names have at most 52 ASCII characters']


def run(ctx):
    q = ctx.quick
    plans = life.longest(ctx.gen('GenLife', 'GenLifeField', simulate=(200 if q else 1200, 20)))
    wd = ctx.subdir('files')
    jobs = [(f'l{i}', p, ctx.rng.randrange(1 << 30), wd) for i, p in enumerate(plans)]
    cases = pmap(life.run_plan, jobs)
    scen = ctx.gen('GenIc3', workers=4)
    ctx.rng.shuffle(scen)
    jobs = [(f'f{i}', s, None, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen[: 700 if q else len(scen)])]
    cases += pmap(life.read_case, jobs)
    ctx.validate('MeshTrace', cases)
    big.judge(ctx, big.file_case, [(f'big{i}-{v}', d, ctx.rng.randrange(1 << 30), wd, v) for i, d in enumerate(big.sizes(ctx)) for v in (2, 3)])
