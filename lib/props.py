import common
import p_surface
import p_brush
import p_misc
