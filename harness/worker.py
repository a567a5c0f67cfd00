"""A worker process: reads jobs (JSON lines) from stdin, answers each with one JSON line."""
import json
import os
import resource
import sys
import traceback

import world  # installs the scheduler before anything else
import vsched
import env  # noqa: F401


def job_stream(scn, strat):
    tr, s = world.run_stream(scn, strat)
    return tr, s


def main():
    runners = {'stream': job_stream}
    import locks

    runners['lock'] = locks.run_lock
    import shared

    runners['shared'] = shared.run_shared
    import record_sorted
    import replay_context
    import replay_direct
    import replay_http
    import replay_life
    import replay_pacing
    import replay_pack
    import replay_reader
    import replay_simply
    import replay_sorted
    import replay_source
    import replay_template
    import replay_twins
    import replay_version
    import replay_window

    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    direct = dict(
        window=replay_window.job_window,
        version=replay_version.job_version,
        template=replay_template.job_template,
        pack=replay_pack.job_pack,
        pacing=replay_pacing.job_pacing,
        http=replay_http.job_http,
        life=replay_life.job_life,
        twins=replay_twins.job_twins,
        context=replay_context.job_context,
        direct=replay_direct.job_direct,
        reader=replay_reader.job_reader,
        sorted=replay_sorted.job_sorted,
        record_sorted=record_sorted.job_record_sorted,
        source=replay_source.job_source,
        simply=replay_simply.job_simply,
    )
    out = sys.stdout
    out.write('.\n')  # everything could be imported
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        if job['kind'] in direct:
            try:
                res = direct[job['kind']](job)
            except Exception as e:
                # the replay expects every outcome it knows; anything else is the code's doing
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[:-4:-1])
                res = [0, [dict(what=f'unexpected {type(e).__name__}: {e} at {where}')], None]
            out.write(json.dumps(dict(id=job['id'], res=res)) + '\n')
            out.flush()
            continue
        res = []
        vsched.FINE[0] = not job.get('plain')
        for strat in job['strats']:
            tr, s = runners[job['kind']](job['scn'], strat)
            rec = None
            st = strat
            if strat[0] in ('preempt', 'fpreempt', 'stall') and len(strat) > 2 and strat[2]:
                rec = s.strategy.record
                st = strat[:2]
            res.append(dict(strat=st, tr=tr, steps=s.steps, rec=rec))
            out.write('.\n')  # a sign of life
        out.write(json.dumps(dict(id=job['id'], res=res)) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    main()
