"""Names used by checks and drivers."""
# names which are easily taken for one another
ODD_NAMES = ["com.x.Y", "com.x.Y:1.0", "com.x.Y:1.0@bolt", "com.x.Y:1.0:bolt", "com.x.Y@DEFAULT", "com.x.Y:1.0@DEFAULT", "com.x.Y:2.0", "com.x.y:1.0", "COM.X.Y:1.0",
             " com.x.Y:1.0", "com.x.Y:1.0 ", "com.x.Y:1.0\t", "com.x.Y:1.0.0", "com.x.Y:1.0#m", "com.x.Y:1.0/m", "com.x.Y:1.0?v=1", "com.x.Y:1.0;v", "com.x.Y:1.0,v",
             "com.x.Y:1.0%20", "com.x.Y:1.0+", "Y:1.0", "Y", "x.Y:1.0", "com.x.Y:", ":", "1", "0", "None", "com.x.\u00dd:1.0", "\u670d\u52a1:1.0", "com.x.Y:1.0\0", "n" * 300, "n" * 301]
