import os, sys, traceback, shutil
for k, v in dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1').items():
    os.environ.setdefault(k, v)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kit


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    ctx = kit.Ctx(pid)
    rc = 2
    cwd = os.getcwd()
    try:
        import tempfile
        mpl = os.path.join(ctx.work, 'mpl')
        os.makedirs(mpl)
        os.environ['MPLCONFIGDIR'] = mpl
        run = os.path.join(ctx.work, 'cwd')
        os.makedirs(run)
        os.chdir(run)                       # whatever the code writes by relative path stays here
        try:
            kit.setup_repo_import()
            mod = __import__(pid.lower())
        except kit.Machinery:
            raise
        except Exception as e:
            if isinstance(e, ModuleNotFoundError) and pid.lower() in str(e):
                raise
            ctx.violation('import', {'what': 'import AMAT'}, {'what': repr(e)[:300]})
            rc = ctx.finish()
            return rc
        mod.run(ctx)
        rc = ctx.finish(getattr(mod, 'LEVEL', 'model_checking'))
    except kit.Machinery as e:
        print('MACHINERY', e)
        rc = 2
    except Exception as e:
        traceback.print_exc()
        own = os.path.realpath(os.path.join(kit.REPO, 'AMAT')) + os.sep
        fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(own)]
        if fr:              # the code under test raised while a case was being prepared
            ctx.violation('no-exception', {'what': 'preparing cases', 'where': '%s:%s' % (os.path.basename(fr[-1].filename), fr[-1].name)}, {'what': repr(e)[:300]})
            rc = ctx.finish()
        else:
            rc = 2
    finally:
        os.chdir(cwd)
        ctx.close()
        if sys.pycache_prefix:
            shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
