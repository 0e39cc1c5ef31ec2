"""list of harnesses, for DESIGN.md"""
import ast, glob, os
here = os.path.join(os.path.dirname(__file__), '..', 'checks')
for f in sorted(glob.glob(os.path.join(here, 'c[0-9][0-9].py'))):
    t = ast.parse(open(f).read())
    print(f'- **{os.path.basename(f)[:3].upper()}**: ' + '; '.join(
        n.name + (f' ({ast.get_docstring(n).splitlines()[0]})' if ast.get_docstring(n) else '')
        for n in t.body if isinstance(n, ast.FunctionDef) and any('harness' in ast.dump(d) for d in n.decorator_list)))
