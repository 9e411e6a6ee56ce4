"""each.py JSON COMMAND…: runs the command with the further arguments which JSON lists for its shard.
Arguments which start with -Z go to Miri."""
import json, os, sys
each = json.loads(sys.argv[1])
cmd = sys.argv[2:]
if each:
    mine = each[int(cmd[cmd.index("--shard") + 1].split("/")[0])]
    cmd += [a for a in mine if not a.startswith("-Z")]
    os.environ["MIRIFLAGS"] = " ".join([os.environ.get("MIRIFLAGS", "")] + [a for a in mine if a.startswith("-Z")])
os.execvp(cmd[0], cmd)
