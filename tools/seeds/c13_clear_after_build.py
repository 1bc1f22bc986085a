ID='c13_clear_after_build'
PROP='C13'
EDITS=[('vanillaplusjs/runners/dev.py', '            self.deleted_files.clear()\n            self.changed_files.clear()\n            self.created_files.clear()\n\n        logger.info', '        logger.info'), ('vanillaplusjs/runners/dev.py', '            with self.lock:\n                self.project_is_unbuildable = False\n        except', '            with self.lock:\n                self.deleted_files.clear()\n                self.changed_files.clear()\n                self.created_files.clear()\n                self.project_is_unbuildable = False\n        except')]
DEMO='\nimport os, sys, threading, tempfile, time\nfrom unittest import mock\nimport vanillaplusjs.runners.dev as dev\nfrom watchdog.events import FileMovedEvent, FileModifiedEvent, FileCreatedEvent, FileDeletedEvent\n\nimport json, asyncio\nwith tempfile.TemporaryDirectory() as d:\n    os.makedirs(d + "/src/public")\n    for n in ("a.html", "b.html"):\n        open(d + "/src/public/" + n, "w").write("<p>x</p>")\n    open(d + "/vanillaplusjs.json", "w").write("{}")\n    h = dev.DevEventHandler(d, -1.0, False)\n    h.on_modified(FileModifiedEvent(d + "/src/public/a.html"))\n    async def rebuild(context, a, b, c, changed, added, deleted):\n        # a change that arrives while the build is running\n        if len(calls) == 0:\n            h.on_modified(FileModifiedEvent(d + "/src/public/b.html"))\n        calls.append(sorted(changed))\n    calls = []\n    cfg = {"host": "h", "images": {}, "auto_generate_images_js_placeholders": False, "external_files": {}, "js_constants": {}}\n    with mock.patch.object(dev, "hot_incremental_rebuild", rebuild), mock.patch.object(dev, "load_icon_settings", lambda c: None), \\\n            mock.patch.object(dev, "load_image_settings", lambda c: None), mock.patch.object(dev, "load_external_files", lambda c: {}), \\\n            mock.patch.object(dev, "load_js_constants", lambda c: None), mock.patch.object(dev.json, "load", lambda f: cfg):\n        h.rebuild_if_appropriate()\n        h.rebuild_if_appropriate()\n    assert calls == [["src/public/a.html"], ["src/public/b.html"]], calls\n'
NEEDS='a change notified while a rebuild is running'
BREAKS='the change that arrived during the build is forgotten and never rebuilt'
