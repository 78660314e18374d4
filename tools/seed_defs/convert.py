from seedpre import *
APP = LANG + '''
import shutil, subprocess, tempfile
T = "entity bot { kinematic g { link a { inertia {mass 1.0} } } }"
import apps.simulation.convert_cognilang_sdf as app
def convert(src, out, name="bot", text=T):
    open(src, "w").write(text)
    old, sys.argv = sys.argv, ["convert", "--input", src, "--output", out]
    try:
        app.main()
    finally:
        sys.argv = old
d = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, d, True)
SRC = os.path.join(d, "in.cogni")
'''
OPEN1 = '''        f.write(etree.tostring(sdf_icon.root_xml, pretty_print=True).decode('utf-8'))
'''
SEEDS = [
    dict(id="P25-script-appended", property="P25",
         edits=[(AP, '''root_item.id_name+".load.sh"), 'w') as f:''', '''root_item.id_name+".load.sh"), 'a') as f:''')],
         needs="a second conversion into the same directory",
         breaks="the load script holds its command twice", demo=APP + '''
convert(SRC, d)
one = open(os.path.join(d, "bot.load.sh")).read()
convert(SRC, d)
check(open(os.path.join(d, "bot.load.sh")).read() == one, "the script of an earlier conversion is still there")
'''),
    dict(id="P25-script-once", property="P25",
         edits=[(AP, '''    with open(os.path.join(args.output, root_item.id_name+".load.sh"), 'w') as f:
        f.write(f"ros2''', '''    script = os.path.join(args.output, root_item.id_name+".load.sh")
    # The script only depends on the name
    if os.path.exists(script):
        return
    with open(script, 'w') as f:
        f.write(f"ros2''')],
         needs="a conversion after one that was interrupted while it wrote the script, or after another use of that file",
         breaks="success is reported although the script is not complete", demo=APP + '''
open(os.path.join(d, "bot.load.sh"), "w").write("ros2 ru")      # what a crash leaves
convert(SRC, d)
check(open(os.path.join(d, "bot.load.sh")).read().endswith("bot.sdf"), "the incomplete script stays")
'''),
    dict(id="P25-in-place", property="P25",
         edits=[(AP, '''    with open(os.path.join(args.output, root_item.id_name+".sdf"), 'w') as f:
''' + OPEN1, '''    target = os.path.join(args.output, root_item.id_name+".sdf")
    # Links to the document stay valid
    with open(target, 'r+' if os.path.exists(target) else 'w') as f:
''' + OPEN1)],
         needs="a document that was longer before",
         breaks="the end of the earlier document remains behind the new one", demo=APP + '''
convert(SRC, d, text="entity bot { kinematic g { link a { inertia {mass 1.0} } link b { inertia {mass 1.0} } } }")
convert(SRC, d)
from lxml import etree
try:
    n = len(etree.parse(os.path.join(d, "bot.sdf")).findall(".//link"))
except etree.XMLSyntaxError as e:
    n = str(e)
check(n == 1, "document after a shorter one: " + str(n))
'''),
    dict(id="P25-left-open", property="P25",
         edits=[(AP, '''    with open(os.path.join(args.output, root_item.id_name+".load.sh"), 'w') as f:
        f.write(f"ros2''', '''    f = open(os.path.join(args.output, root_item.id_name+".load.sh"), 'w')
    if not f.closed:
        f.write(f"ros2''')],
         needs="a disk that is full (or fails) when the script is written out at its close",
         breaks="the conversion reports success although the script is empty", demo=APP + '''
os.symlink("/dev/full", os.path.join(d, "bot.load.sh"))
sys.stderr = open(os.devnull, "w")
sys.unraisablehook = lambda a: None
check(raises(convert, SRC, d), "success is reported on a full disk")
'''),
    dict(id="P25-first-document-kept", property="P25",
         edits=[(AP, """    with open(os.path.join(args.output, root_item.id_name+".sdf"), 'w') as f:
""" + OPEN1, """    try:
        with open(os.path.join(args.output, root_item.id_name+".sdf"), 'w') as f:
            f.write(etree.tostring(sdf_icon.root_xml, pretty_print=True).decode('utf-8'))
    except OSError as e:
        print("could not write", root_item.id_name, e)
""")],
         needs="a write that fails while the document is written",
         breaks="the program goes on, writes the script and reports success", demo=APP + '''
os.symlink("/dev/full", os.path.join(d, "bot.sdf"))
check(raises(convert, SRC, d), "success is reported on a full disk")
'''),
]
