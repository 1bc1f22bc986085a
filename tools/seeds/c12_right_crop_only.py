ID='c12_right_crop_only'
PROP='C12'
EDITS=[('vanillaplusjs/build/html/manips/images/cover_fit.py', '        or pre_bottom_crop != 0\n        or pre_right_crop != 0\n', '        or pre_bottom_crop != 0\n')]
DEMO='\nfrom vanillaplusjs.build.html.manips.images.cover_fit import cover_fit\nx, y, w, h = cover_fit(100, 50, 30, 20, pre_right_crop=40)\nassert x + w <= 60, (x, y, w, h)\n'
NEEDS='a crop of the right side only'
BREAKS='the right crop is ignored'
