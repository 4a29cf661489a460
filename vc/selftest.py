"""setup_cmd: checks the tools the framework needs and that the verifier refutes a wrong contract."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    import z3
    print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
    from vc import instrument
    instrument.install()
    m = importlib.import_module('contracts.c01_runlength')
    c = m.contracts[0]
    r = c.prove()
    assert r['status'] == 'ok', r
    from vc.contract import EQ
    good = c.ensures
    c.ensures = lambda out, **kw: [('deliberately wrong', EQ(out, ('ok', b'')))]
    r = c.prove()
    c.ensures = good
    assert r['status'] == 'fail' and r['fails'], 'the verifier accepted a wrong contract'
    print('engine self-test passed')


if __name__ == '__main__':
    main()
