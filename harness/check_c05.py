"""C05: IC3 files are a well-formed chain of sections, found in any order."""
import life
from common import pmap

ASSUMPTIONS = ['names of sections are ASCII', 'foreign sections use identifiers the format does not define']


def run(ctx):
    q = ctx.quick
    ctx.mc('Ic3Chain', dead_ok=('Harm',))
    orders = ctx.gen('Ic3Chain', 'Ic3ChainGen', workers=4)
    ctx.rng.shuffle(orders)
    scen = ctx.gen('GenIc3', workers=4)
    wd = ctx.subdir('files')
    jobs = [(f'o{i}', ctx.rng.choice(scen), o, ctx.rng.randrange(1 << 30), wd) for i, o in enumerate(orders[: 220 if q else len(orders)])]
    cases = pmap(life.read_case, jobs)
    plans = life.longest(ctx.gen('GenLife', 'GenLifeCycle', simulate=(40 if q else 500, 20)))
    plans += life.longest(ctx.gen('GenLife', 'GenLifeField', simulate=(40 if q else 500, 20)))
    jobs = [(f'l{i}', p, ctx.rng.randrange(1 << 30), wd) for i, p in enumerate(plans)]
    cases += pmap(life.run_plan, jobs)
    ctx.validate('MeshTrace', cases)
