"""python3 -m tbc.check ID [--thorough]   exit 0: held, 1: VIOLATION line printed, 2: the check itself failed"""
import os, sys, time, traceback


BOTH = ('D06', 'H02', 'E06')     # these look at each build variant themselves, or at no build


def main(argv):
    from .core import Ck, Anchor
    from .props import PROPS
    from . import meta, build
    ids = [a for a in argv if not a.startswith('-')] or sorted(PROPS)
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    rc = 0
    shared = None
    for pid in ids:
        ck = Ck(pid, tier == 'thorough')
        if shared is not None:
            ck.progs, ck.how, ck.cache = shared.progs, shared.how, shared.cache
        shared = ck
        try:
            PROPS[pid](ck)
            for v in () if pid in BOTH else ('production', 'release') if ck.thorough else ('production',):
                ck.force = v
                PROPS[pid](ck)
        except Anchor as e:
            ck.ob('anchor', str(e), False, 'the rule cannot be evaluated: ' + str(e), 'anchor:' + str(e))
        except build.BuildError as e:
            print('BUILD-FAILED: %s' % e)
            return 2
        except Exception:
            traceback.print_exc()
            ck.ob('analysable', 'engine', False, 'the engine could not follow the current source: ' + traceback.format_exc()[-600:], 'engine')
        rc |= ck.finish(dict(evidence=lambda c, cov, new: meta.evidence(c, cov, new, tier)))
        if len(ids) > 1 or '-v' in argv:
            print('%s obligations=%d ok=%d new=%s %.1fs' % (pid, len(ck.obs), sum(ck.obs), len(ck.viol), time.time() - ck.t0))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
