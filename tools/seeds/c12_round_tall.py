ID='c12_round_tall'
PROP='C12'
EDITS=[('vanillaplusjs/build/html/manips/images/cover_fit.py', 'crop_height = round(dest_height * source_resolution)', 'crop_height = int(dest_height * source_resolution)')]
DEMO='\nfrom vanillaplusjs.build.html.manips.images.cover_fit import cover_fit\nx, y, w, h = cover_fit(10, 100, 3, 5)\nassert (w, h) == (10, 17), (w, h)\nassert y == 41 and x == 0\n'
NEEDS='a source taller than the target whose exact crop height has a fraction of a half or more'
BREAKS='the crop is a pixel short, not the nearest to the target ratio'
