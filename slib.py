"""Schema enumeration: parse with protoc, generate with the plugin of the working tree, compile, run."""
from vlib import *


class Schemas:
    def __init__(self, work):
        self.work = work
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        self.plug = prepare_generator(os.path.join(work, 'gen'))
        self.src = os.path.join(work, 'src')
        self.ds = os.path.join(work, 'ds')
        os.makedirs(self.src)
        os.makedirs(self.ds)

    def parse(self, cases):
        """Write the files, make descriptor sets. A schema that protoc itself refuses is an error of the enumeration."""
        def one(c):
            root = os.path.join(self.src, c['id'] + '.d')
            for p, t in c['files'].items():
                d = os.path.join(root, p)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                with open(d, 'w') as f:
                    f.write(t)
            c['root'] = root
            c['ds'] = os.path.join(self.ds, c['id'] + '.ds')
            r = run(['protoc', '-I' + root, '-I' + os.path.join(self.work, 'gen'), '--include_imports', '--descriptor_set_out=' + c['ds']] + c['gen'])
            if r.returncode:
                raise RuntimeError('protoc refuses case %s: %s\n%s' % (c['id'], r.stdout.decode(errors='replace'), '\n'.join(c['files'].values())))
        with ThreadPoolExecutor(NCPU * 2) as ex:
            list(ex.map(one, cases))

    def plugin(self, jobs, seed='0'):
        """Run plugin requests. jobs: list of dicts id, ds, gen, order. Returns {id: result}."""
        chunks = [jobs[i::NCPU] for i in range(NCPU)]
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')

        def one(ch):
            if not ch:
                return []
            r = subprocess.run([PY, os.path.join(VERIF, 'gen/genworker.py'), os.path.join(self.work, 'gen')], input=''.join(json.dumps(j) + '\n' for j in ch).encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.work)
            res = [json.loads(l) for l in r.stdout.decode().splitlines()]
            if len(res) != len(ch):
                raise Broken('the generator cannot be started', r.stderr.decode(errors='replace')[-3000:])
            return res
        out = {}
        with ThreadPoolExecutor(NCPU) as ex:
            for l in ex.map(one, chunks):
                for x in l:
                    out[x['id']] = x
        return out


def describe(c):
    return '\n'.join('---- %s\n%s' % (p, t) for p, t in c['files'].items())
