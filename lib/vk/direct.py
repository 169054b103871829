"""The functions behind the convert command, called as another program would call them."""
import json
import sys

from palworld_save_tools.commands import convert

if __name__ == "__main__":
    direction, source, target, options = sys.argv[1:]
    call = convert.convert_sav_to_json if direction == "to" else convert.convert_json_to_sav
    call(source, target, **json.loads(options))
