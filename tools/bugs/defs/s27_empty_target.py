P = 'P27'
NEEDS = 'an existing, empty file where the template is to be written'
BREAKS = 'an existing file is overwritten without being asked when it is empty'
EDITS = [('kmcpy/cli/init.py', '    if output_path.exists() and not force:', '    if output_path.exists() and output_path.stat().st_size and not force:')]
DEMO = '''
from kmcpy.cli.init import main
open("mine.yaml", "w").close()
try:
    main(["-o", "mine.yaml"])
except (FileExistsError, SystemExit):
    pass
done(os.path.getsize("mine.yaml") == 0, "an existing file was overwritten without --force")
'''
