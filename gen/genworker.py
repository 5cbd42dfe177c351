"""Run the plugin entry point on requests, one forked process each (the plugin normally handles one request per process).

usage: genworker.py GENERATOR_DIR < jobs   (one JSON per line: id, ds, gen, order)   results: one JSON per line on stdout"""
import sys, os, json, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from google.protobuf import descriptor_pb2
from google.protobuf.compiler import plugin_pb2
import EmbeddedProto.main as main

out = os.fdopen(os.dup(1), 'w')
for line in sys.stdin:
    job = json.loads(line)
    fds = descriptor_pb2.FileDescriptorSet.FromString(open(job['ds'], 'rb').read())
    by = {f.name: f for f in fds.file}
    req = plugin_pb2.CodeGeneratorRequest()
    req.file_to_generate.extend(job['gen'])
    names = job.get('order') or [f.name for f in fds.file]
    for n in names:
        req.proto_file.add().CopyFrom(by[n])
    with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo:
        fi.write(req.SerializeToString())
        fi.seek(0)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.dup2(fi.fileno(), 0)
                os.dup2(fo.fileno(), 1)
                sys.stdin = os.fdopen(0, 'r', closefd=False)
                sys.stdout = os.fdopen(1, 'w', closefd=False)
                sys.argv = ['protoc-gen-eams', '--protoc-plugin']
                main.main_plugin()
                sys.stdout.flush()
                code = 0
            except SystemExit as e:
                sys.stdout.flush()
                code = 0 if not e.code else 1
            except BaseException as e:
                sys.stderr.write('%s: %r\n' % (job['id'], e))
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        fo.seek(0)
        data = fo.read()
    res = {'id': job['id']}
    if st:
        res['crash'] = st
    else:
        r = plugin_pb2.CodeGeneratorResponse.FromString(data)
        res['error'] = r.error
        res['files'] = {f.name: f.content for f in r.file}
        res['dup'] = len(r.file) != len(res['files'])
    out.write(json.dumps(res) + '\n')
    out.flush()
