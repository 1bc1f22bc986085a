ID='c13_move_onto_deleted'
PROP='C13'
EDITS=[('vanillaplusjs/runners/dev.py', '            self.on_created(FileCreatedEvent(event.dest_path))', '            self.on_modified(FileModifiedEvent(event.dest_path))')]
DEMO='\nimport os, sys, threading, tempfile, time\nfrom unittest import mock\nimport vanillaplusjs.runners.dev as dev\nfrom watchdog.events import FileMovedEvent, FileModifiedEvent, FileCreatedEvent, FileDeletedEvent\n\nh = dev.DevEventHandler("/nowhere", 0.0, False)\nh.on_deleted(FileDeletedEvent("/nowhere/src/a.html"))\nh.on_moved(FileMovedEvent("/nowhere/src/b.html", "/nowhere/src/a.html"))\nassert "/nowhere/src/a.html" not in h.deleted_files, "moved file is still pending as deleted"\nassert "/nowhere/src/a.html" in h.changed_files | h.created_files\nassert "/nowhere/src/b.html" in h.deleted_files\n'
NEEDS='a file deleted since the last build and another file then moved to its path'
BREAKS='the moved-to file is pending both as deleted and as changed, so the rebuild deletes its output'
