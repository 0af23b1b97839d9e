// Written by tools/gen_literals.py.
use bvh_anim::{bvh, Bvh};

pub const COUNT: usize = 22;

fn lit0() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Site2
        {
            OFFSET 1.5e-7 1.0 33.333
            CHANNELS 0 
            JOINT End1
            {
                OFFSET -1.0 -0.0 -2.5
                CHANNELS 9 Xposition Zrotation Xrotation Zposition Yposition Yposition Xrotation Zrotation Xrotation
                End Site
                {
                    OFFSET -0.0 -2.5 0.1
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 1.0
    }
}
fn lit1() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Root24
        {
            OFFSET 0.1 1.5e-7 1e3
            CHANNELS 1 Xrotation
            JOINT End3
            {
                OFFSET -0.0 0.1 1.5e-7
                CHANNELS 8 Yposition Yposition Zrotation Zposition Yrotation Yrotation Yposition Zrotation
            }
        }
        MOTION
        Frames: 1
        Frame Time: 2.5e-3
        12345.678 -2.5 -2.5 0.000001 1.5e-7 -2.5 12345.678 1.0 -2.5
    }
}
fn lit2() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Xposition6
        {
            OFFSET 0.000001 1.0 1.5e-7
            CHANNELS 2 Yrotation Xrotation
            JOINT offset5
            {
                OFFSET 0.1 0.1 16777217.0
                CHANNELS 7 Yrotation Yrotation Yposition Xrotation Zrotation Zrotation Yposition
                End Site
                {
                    OFFSET 16777217.0 1e3 -1.0
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 2.5e-3
        33.333 16777217.0 12345.678 -0.0 1.0 -0.0 -1.0 -0.0 -1.0
        -0.0 1.0 0.1 16777217.0 1.0 12345.678 33.333 0.1 16777217.0
    }
}
fn lit3() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Xposition8
        {
            OFFSET 1.5e-7 1e3 16777217.0
            CHANNELS 3 Xrotation Yposition Zposition
            JOINT Xposition7
            {
                OFFSET 1.5e-7 1.0 -0.0
                CHANNELS 6 Yrotation Yrotation Zrotation Yrotation Xposition Yposition
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.0
    }
}
fn lit4() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT End10
        {
            OFFSET 0.0 12345.678 12345.678
            CHANNELS 4 Yrotation Zrotation Zrotation Xrotation
            JOINT Root29
            {
                OFFSET 1.5e-7 12345.678 0.0
                CHANNELS 5 Zrotation Yrotation Zposition Yposition Xrotation
                End Site
                {
                    OFFSET 0.000001 1e3 -1.0
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.0333333
        0.0 0.000001 -2.5 1e3 1.5e-7 1e3 -0.0 0.000001 12345.678
    }
}
fn lit5() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Hips12
        {
            OFFSET 12345.678 -1.0 0.1
            CHANNELS 5 Xposition Zposition Yrotation Zrotation Yposition
            JOINT offset11
            {
                OFFSET -1.0 33.333 1.5e-7
                CHANNELS 4 Xrotation Yposition Yposition Yposition
            }
        }
        MOTION
        Frames: 2
        Frame Time: 2.5e-3
        1.5e-7 0.1 -1.0 -2.5 1.0 0.000001 33.333 1.0 33.333
        33.333 1.0 0.000001 -2.5 33.333 1.5e-7 -1.0 1e3 1.5e-7
    }
}
fn lit6() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Hips14
        {
            OFFSET -2.5 -1.0 33.333
            CHANNELS 6 Yrotation Zposition Xrotation Zposition Xposition Yposition
            JOINT Xposition13
            {
                OFFSET 12345.678 1.5e-7 0.0
                CHANNELS 3 Yrotation Xrotation Zrotation
                End Site
                {
                    OFFSET -2.5 1e3 1.5e-7
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.008333333333
    }
}
fn lit7() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT arm_L16
        {
            OFFSET 1.0 0.1 33.333
            CHANNELS 7 Yposition Zrotation Xposition Xrotation Zposition Yposition Zrotation
            JOINT arm_L15
            {
                OFFSET 16777217.0 -2.5 12345.678
                CHANNELS 2 Xposition Zposition
            }
        }
        MOTION
        Frames: 1
        Frame Time: 2.5e-3
        12345.678 1e3 1e3 16777217.0 -2.5 -0.0 0.0 12345.678 16777217.0
    }
}
fn lit8() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT arm_L18
        {
            OFFSET 16777217.0 33.333 0.0
            CHANNELS 8 Yrotation Xposition Zposition Yposition Yposition Yrotation Yposition Zrotation
            JOINT J17
            {
                OFFSET 0.1 0.0 1.0
                CHANNELS 1 Zrotation
                End Site
                {
                    OFFSET 1e3 16777217.0 33.333
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.008333333333
        -2.5 0.0 12345.678 1e3 16777217.0 1.5e-7 12345.678 -1.0 -2.5
        1e3 -1.0 -0.0 0.000001 0.1 0.000001 -2.5 -0.0 0.0
    }
}
fn lit9() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Site20
        {
            OFFSET 0.0 -1.0 -2.5
            CHANNELS 9 Zrotation Yrotation Xposition Yposition Zrotation Zrotation Yrotation Yrotation Yposition
            JOINT Root219
            {
                OFFSET 12345.678 0.0 0.000001
                CHANNELS 0 
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.0333333
    }
}
fn lit10() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Only
        {
            OFFSET -0.0 12345.678 16777217.0
            CHANNELS 3 Yrotation Yposition Xposition
        }
        MOTION
        Frames: 1
        Frame Time: 0.1
        1.5e-7 1.5e-7 -0.0
    }
}
fn lit11() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT OnlyEnd
        {
            OFFSET 0.1 -0.0 33.333
            CHANNELS 2 Xrotation Yposition
            End Site
            {
                OFFSET 16777217.0 -2.5 1e3
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.1
        -2.5 -1.0
        0.1 1e3
    }
}
fn lit12() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT W
        {
            OFFSET 0.000001 -1.0 33.333
            CHANNELS 1 Zrotation
            JOINT Root221
            {
                OFFSET 1.5e-7 1.5e-7 16777217.0
                CHANNELS 0 
                End Site
                {
                    OFFSET 12345.678 12345.678 -2.5
                }
            }
            JOINT Root222
            {
                OFFSET 0.0 16777217.0 16777217.0
                CHANNELS 1 Yposition
            }
            JOINT End23
            {
                OFFSET 1.0 -0.0 -2.5
                CHANNELS 2 Xrotation Xposition
                End Site
                {
                    OFFSET 33.333 0.1 -0.0
                }
            }
            JOINT arm_L24
            {
                OFFSET 1.0 33.333 -1.0
                CHANNELS 0 
            }
            JOINT Xposition25
            {
                OFFSET 0.1 0.0 -2.5
                CHANNELS 1 Zposition
                End Site
                {
                    OFFSET 0.1 0.1 -1.0
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.02
        0.000001 0.0 -1.0 12345.678 33.333
    }
}
fn lit13() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT End26
        {
            OFFSET 1e3 16777217.0 0.1
            CHANNELS 1 Xposition
            JOINT J27
            {
                OFFSET -2.5 0.1 -2.5
                CHANNELS 1 Zrotation
                JOINT End28
                {
                    OFFSET -2.5 1e3 1.5e-7
                    CHANNELS 1 Zposition
                    JOINT Site29
                    {
                        OFFSET -0.0 -2.5 0.1
                        CHANNELS 1 Zrotation
                        JOINT Root230
                        {
                            OFFSET -1.0 16777217.0 0.1
                            CHANNELS 1 Yrotation
                            JOINT Root231
                            {
                                OFFSET 1e3 33.333 12345.678
                                CHANNELS 1 Yrotation
                                JOINT Root232
                                {
                                    OFFSET -2.5 33.333 0.1
                                    CHANNELS 1 Zposition
                                    End Site
                                    {
                                        OFFSET -0.0 33.333 1e3
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 3
        Frame Time: 0.04
        0.0 12345.678 0.000001 1.0 16777217.0 33.333 0.0
        1e3 1e3 1.0 1e3 0.000001 1.5e-7 16777217.0
        33.333 -0.0 33.333 12345.678 0.1 16777217.0 1e3
    }
}
fn lit14() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Hips42
        {
            OFFSET 0.000001 -2.5 -1.0
            CHANNELS 3 Xposition Xposition Yrotation
            JOINT Xposition41
            {
                OFFSET 1.5e-7 33.333 -0.0
                CHANNELS 1 Xrotation
                JOINT arm_L36
                {
                    OFFSET 16777217.0 1.0 -2.5
                    CHANNELS 3 Zposition Zposition Yposition
                    JOINT Hips35
                    {
                        OFFSET 0.1 1e3 0.1
                        CHANNELS 2 Xposition Zrotation
                        JOINT J33
                        {
                            OFFSET 0.000001 12345.678 1e3
                            CHANNELS 0 
                            End Site
                            {
                                OFFSET 33.333 -2.5 1e3
                            }
                        }
                        JOINT Root234
                        {
                            OFFSET 1.5e-7 0.000001 16777217.0
                            CHANNELS 2 Yrotation Zposition
                            End Site
                            {
                                OFFSET -1.0 -2.5 -1.0
                            }
                        }
                    }
                }
                JOINT J40
                {
                    OFFSET -1.0 16777217.0 0.000001
                    CHANNELS 3 Xrotation Yposition Zposition
                    JOINT Hips38
                    {
                        OFFSET 0.000001 16777217.0 12345.678
                        CHANNELS 0 
                        JOINT Xposition37
                        {
                            OFFSET 33.333 33.333 33.333
                            CHANNELS 1 Xposition
                            End Site
                            {
                                OFFSET 0.000001 0.1 1.5e-7
                            }
                        }
                    }
                    JOINT Hips39
                    {
                        OFFSET 1e3 12345.678 1.0
                        CHANNELS 0 
                        End Site
                        {
                            OFFSET 0.000001 -1.0 12345.678
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 3.25
        -2.5 0.000001 -1.0 16777217.0 33.333 16777217.0 1.0 0.0 16777217.0 0.0 0.0 1.0 -2.5 33.333 -2.5
    }
}
fn lit15() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Root249
        {
            OFFSET -0.0 0.1 1e3
            CHANNELS 3 Zrotation Xrotation Zposition
            JOINT Site48
            {
                OFFSET 1e3 -0.0 12345.678
                CHANNELS 1 Yrotation
                JOINT offset47
                {
                    OFFSET 1.5e-7 0.0 -1.0
                    CHANNELS 3 Yrotation Yrotation Yposition
                    JOINT Root243
                    {
                        OFFSET 12345.678 0.000001 1e3
                        CHANNELS 3 Zposition Zrotation Xposition
                        End Site
                        {
                            OFFSET 1.0 -1.0 -2.5
                        }
                    }
                    JOINT Hips46
                    {
                        OFFSET -2.5 0.1 1e3
                        CHANNELS 2 Xposition Yrotation
                        JOINT Root244
                        {
                            OFFSET 12345.678 0.000001 -0.0
                            CHANNELS 1 Yrotation
                            End Site
                            {
                                OFFSET 16777217.0 1.0 1e3
                            }
                        }
                        JOINT Root245
                        {
                            OFFSET 16777217.0 1.0 -2.5
                            CHANNELS 0 
                            End Site
                            {
                                OFFSET 16777217.0 -1.0 16777217.0
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.016666
        0.0 33.333 -1.0 12345.678 16777217.0 0.1 -0.0 -0.0 -2.5 1e3 0.1 1.0 -2.5
    }
}
fn lit16() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT End53
        {
            OFFSET -1.0 -1.0 1.0
            CHANNELS 3 Yposition Zrotation Zposition
            JOINT Hips50
            {
                OFFSET 0.000001 1e3 1.0
                CHANNELS 0 
                End Site
                {
                    OFFSET 16777217.0 1e3 12345.678
                }
            }
            JOINT End52
            {
                OFFSET 33.333 0.0 1e3
                CHANNELS 1 Yposition
                JOINT Site51
                {
                    OFFSET 33.333 0.1 12345.678
                    CHANNELS 0 
                    End Site
                    {
                        OFFSET 1.0 16777217.0 -1.0
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.0333333
        0.000001 33.333 -2.5 0.000001
    }
}
fn lit17() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Xposition61
        {
            OFFSET 0.1 12345.678 -2.5
            CHANNELS 0 
            JOINT Xposition60
            {
                OFFSET 16777217.0 0.000001 12345.678
                CHANNELS 3 Xposition Yposition Zposition
                JOINT End58
                {
                    OFFSET 0.0 33.333 0.1
                    CHANNELS 0 
                    JOINT J54
                    {
                        OFFSET -0.0 12345.678 12345.678
                        CHANNELS 0 
                        End Site
                        {
                            OFFSET -2.5 -0.0 1e3
                        }
                    }
                    JOINT offset57
                    {
                        OFFSET 0.0 -1.0 0.1
                        CHANNELS 1 Yposition
                        JOINT offset55
                        {
                            OFFSET 16777217.0 -0.0 1.5e-7
                            CHANNELS 3 Xrotation Yposition Zrotation
                            End Site
                            {
                                OFFSET 12345.678 33.333 12345.678
                            }
                        }
                        JOINT Hips56
                        {
                            OFFSET 1.5e-7 33.333 -2.5
                            CHANNELS 1 Yrotation
                            End Site
                            {
                                OFFSET 1.5e-7 12345.678 0.0
                            }
                        }
                    }
                }
                JOINT offset59
                {
                    OFFSET -1.0 -2.5 1e3
                    CHANNELS 0 
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.016666
        -2.5 33.333 1.0 16777217.0 0.0 1.0 0.0 12345.678
    }
}
fn lit18() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Xposition66
        {
            OFFSET 0.0 1.5e-7 12345.678
            CHANNELS 3 Zrotation Zrotation Yposition
            JOINT Site63
            {
                OFFSET -1.0 -0.0 0.0
                CHANNELS 3 Xrotation Xposition Xposition
                JOINT End62
                {
                    OFFSET 16777217.0 1.5e-7 1.0
                    CHANNELS 2 Yposition Xposition
                    End Site
                    {
                        OFFSET 0.0 0.0 0.000001
                    }
                }
            }
            JOINT Hips65
            {
                OFFSET 12345.678 0.000001 33.333
                CHANNELS 1 Yrotation
                JOINT End64
                {
                    OFFSET 33.333 0.1 1.5e-7
                    CHANNELS 3 Yrotation Zrotation Zrotation
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.016666
        -0.0 1.0 1e3 -1.0 12345.678 0.000001 0.0 0.0 1.0 33.333 -2.5 0.0
    }
}
fn lit19() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Xposition69
        {
            OFFSET 12345.678 16777217.0 1e3
            CHANNELS 0 
            JOINT Xposition67
            {
                OFFSET 0.000001 -0.0 -0.0
                CHANNELS 0 
                End Site
                {
                    OFFSET 0.0 1.5e-7 0.0
                }
            }
            JOINT J68
            {
                OFFSET 16777217.0 16777217.0 -0.0
                CHANNELS 3 Xposition Yrotation Xposition
                End Site
                {
                    OFFSET 33.333 33.333 -1.0
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.016666
        1e3 -1.0 16777217.0
    }
}
fn lit20() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT arm_L80
        {
            OFFSET -0.0 -0.0 0.000001
            CHANNELS 3 Yposition Yposition Zrotation
            JOINT arm_L79
            {
                OFFSET 1.5e-7 16777217.0 12345.678
                CHANNELS 1 Xrotation
                JOINT J75
                {
                    OFFSET 16777217.0 0.1 1.0
                    CHANNELS 0 
                    JOINT offset71
                    {
                        OFFSET 1.0 0.1 0.0
                        CHANNELS 2 Zposition Xposition
                        JOINT arm_L70
                        {
                            OFFSET 0.0 0.0 -1.0
                            CHANNELS 1 Yposition
                            End Site
                            {
                                OFFSET -2.5 1e3 0.0
                            }
                        }
                    }
                    JOINT Root274
                    {
                        OFFSET 0.000001 -2.5 33.333
                        CHANNELS 1 Zposition
                        JOINT Hips72
                        {
                            OFFSET -1.0 33.333 16777217.0
                            CHANNELS 2 Xposition Xrotation
                            End Site
                            {
                                OFFSET 0.000001 33.333 -2.5
                            }
                        }
                        JOINT Root273
                        {
                            OFFSET 1.0 1.0 16777217.0
                            CHANNELS 2 Xposition Xrotation
                            End Site
                            {
                                OFFSET 12345.678 -2.5 0.0
                            }
                        }
                    }
                }
                JOINT Xposition78
                {
                    OFFSET 16777217.0 -2.5 -2.5
                    CHANNELS 3 Xposition Yrotation Yrotation
                    JOINT Root277
                    {
                        OFFSET 0.0 -0.0 1.5e-7
                        CHANNELS 1 Xposition
                        JOINT End76
                        {
                            OFFSET 1e3 0.1 16777217.0
                            CHANNELS 2 Zrotation Yposition
                            End Site
                            {
                                OFFSET 0.0 0.0 1.0
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 3.25
        -2.5 -2.5 1.5e-7 0.000001 1.5e-7 33.333 12345.678 33.333 -2.5 1.5e-7 0.1 -1.0 33.333 33.333 0.1 1.5e-7 12345.678 -0.0
    }
}
fn lit21() -> Bvh {
    bvh! {
        HIERARCHY
        ROOT Hips89
        {
            OFFSET 12345.678 -1.0 1.5e-7
            CHANNELS 2 Zrotation Xposition
            JOINT Xposition87
            {
                OFFSET -0.0 0.000001 0.000001
                CHANNELS 0 
                JOINT End85
                {
                    OFFSET 0.000001 0.1 1.0
                    CHANNELS 0 
                    JOINT Site82
                    {
                        OFFSET -2.5 1e3 1.0
                        CHANNELS 1 Zposition
                        JOINT End81
                        {
                            OFFSET 1.0 -0.0 1e3
                            CHANNELS 2 Xposition Zrotation
                            End Site
                            {
                                OFFSET 33.333 0.1 1.0
                            }
                        }
                    }
                    JOINT Hips84
                    {
                        OFFSET 1e3 16777217.0 16777217.0
                        CHANNELS 2 Xrotation Xposition
                        JOINT J83
                        {
                            OFFSET -0.0 -2.5 0.0
                            CHANNELS 2 Yposition Yrotation
                            End Site
                            {
                                OFFSET 33.333 -2.5 1.0
                            }
                        }
                    }
                }
                JOINT End86
                {
                    OFFSET 33.333 16777217.0 0.000001
                    CHANNELS 3 Yposition Zrotation Zrotation
                    End Site
                    {
                        OFFSET 1.5e-7 -0.0 0.0
                    }
                }
            }
            JOINT Site88
            {
                OFFSET 0.0 16777217.0 0.1
                CHANNELS 3 Yposition Yposition Xposition
                End Site
                {
                    OFFSET 1.5e-7 33.333 0.0
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.016666
        1e3 33.333 0.000001 -0.0 -2.5 1e3 0.000001 1.5e-7 1e3 0.000001 0.000001 33.333 0.000001 -2.5 1e3
    }
}
pub fn literal(i: usize) -> Bvh {
    match i {
        0 => lit0(),
        1 => lit1(),
        2 => lit2(),
        3 => lit3(),
        4 => lit4(),
        5 => lit5(),
        6 => lit6(),
        7 => lit7(),
        8 => lit8(),
        9 => lit9(),
        10 => lit10(),
        11 => lit11(),
        12 => lit12(),
        13 => lit13(),
        14 => lit14(),
        15 => lit15(),
        16 => lit16(),
        17 => lit17(),
        18 => lit18(),
        19 => lit19(),
        20 => lit20(),
        _ => lit21(),
    }
}
pub const TEXT: [&str; COUNT] = [
    "HIERARCHY\nROOT Site2\n{\n\tOFFSET 1.5e-7 1.0 33.333\n\tCHANNELS 0\n\tJOINT End1\n\t{\n\t\tOFFSET -1.0 -0.0 -2.5\n\t\tCHANNELS 9 Xposition Zrotation Xrotation Zposition Yposition Yposition Xrotation Zrotation Xrotation\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET -0.0 -2.5 0.1\n\t\t}\n\t}\n}\nMOTION\nFrames: 0\nFrame Time: 1.0\n",
    "HIERARCHY\nROOT Root24\n{\n\tOFFSET 0.1 1.5e-7 1e3\n\tCHANNELS 1 Xrotation\n\tJOINT End3\n\t{\n\t\tOFFSET -0.0 0.1 1.5e-7\n\t\tCHANNELS 8 Yposition Yposition Zrotation Zposition Yrotation Yrotation Yposition Zrotation\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 2.5e-3\n12345.678 -2.5 -2.5 0.000001 1.5e-7 -2.5 12345.678 1.0 -2.5\n",
    "HIERARCHY\nROOT Xposition6\n{\n\tOFFSET 0.000001 1.0 1.5e-7\n\tCHANNELS 2 Yrotation Xrotation\n\tJOINT offset5\n\t{\n\t\tOFFSET 0.1 0.1 16777217.0\n\t\tCHANNELS 7 Yrotation Yrotation Yposition Xrotation Zrotation Zrotation Yposition\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 16777217.0 1e3 -1.0\n\t\t}\n\t}\n}\nMOTION\nFrames: 2\nFrame Time: 2.5e-3\n33.333 16777217.0 12345.678 -0.0 1.0 -0.0 -1.0 -0.0 -1.0\n-0.0 1.0 0.1 16777217.0 1.0 12345.678 33.333 0.1 16777217.0\n",
    "HIERARCHY\nROOT Xposition8\n{\n\tOFFSET 1.5e-7 1e3 16777217.0\n\tCHANNELS 3 Xrotation Yposition Zposition\n\tJOINT Xposition7\n\t{\n\t\tOFFSET 1.5e-7 1.0 -0.0\n\t\tCHANNELS 6 Yrotation Yrotation Zrotation Yrotation Xposition Yposition\n\t}\n}\nMOTION\nFrames: 0\nFrame Time: 0.0\n",
    "HIERARCHY\nROOT End10\n{\n\tOFFSET 0.0 12345.678 12345.678\n\tCHANNELS 4 Yrotation Zrotation Zrotation Xrotation\n\tJOINT Root29\n\t{\n\t\tOFFSET 1.5e-7 12345.678 0.0\n\t\tCHANNELS 5 Zrotation Yrotation Zposition Yposition Xrotation\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 0.000001 1e3 -1.0\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.0333333\n0.0 0.000001 -2.5 1e3 1.5e-7 1e3 -0.0 0.000001 12345.678\n",
    "HIERARCHY\nROOT Hips12\n{\n\tOFFSET 12345.678 -1.0 0.1\n\tCHANNELS 5 Xposition Zposition Yrotation Zrotation Yposition\n\tJOINT offset11\n\t{\n\t\tOFFSET -1.0 33.333 1.5e-7\n\t\tCHANNELS 4 Xrotation Yposition Yposition Yposition\n\t}\n}\nMOTION\nFrames: 2\nFrame Time: 2.5e-3\n1.5e-7 0.1 -1.0 -2.5 1.0 0.000001 33.333 1.0 33.333\n33.333 1.0 0.000001 -2.5 33.333 1.5e-7 -1.0 1e3 1.5e-7\n",
    "HIERARCHY\nROOT Hips14\n{\n\tOFFSET -2.5 -1.0 33.333\n\tCHANNELS 6 Yrotation Zposition Xrotation Zposition Xposition Yposition\n\tJOINT Xposition13\n\t{\n\t\tOFFSET 12345.678 1.5e-7 0.0\n\t\tCHANNELS 3 Yrotation Xrotation Zrotation\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET -2.5 1e3 1.5e-7\n\t\t}\n\t}\n}\nMOTION\nFrames: 0\nFrame Time: 0.008333333333\n",
    "HIERARCHY\nROOT arm_L16\n{\n\tOFFSET 1.0 0.1 33.333\n\tCHANNELS 7 Yposition Zrotation Xposition Xrotation Zposition Yposition Zrotation\n\tJOINT arm_L15\n\t{\n\t\tOFFSET 16777217.0 -2.5 12345.678\n\t\tCHANNELS 2 Xposition Zposition\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 2.5e-3\n12345.678 1e3 1e3 16777217.0 -2.5 -0.0 0.0 12345.678 16777217.0\n",
    "HIERARCHY\nROOT arm_L18\n{\n\tOFFSET 16777217.0 33.333 0.0\n\tCHANNELS 8 Yrotation Xposition Zposition Yposition Yposition Yrotation Yposition Zrotation\n\tJOINT J17\n\t{\n\t\tOFFSET 0.1 0.0 1.0\n\t\tCHANNELS 1 Zrotation\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 1e3 16777217.0 33.333\n\t\t}\n\t}\n}\nMOTION\nFrames: 2\nFrame Time: 0.008333333333\n-2.5 0.0 12345.678 1e3 16777217.0 1.5e-7 12345.678 -1.0 -2.5\n1e3 -1.0 -0.0 0.000001 0.1 0.000001 -2.5 -0.0 0.0\n",
    "HIERARCHY\nROOT Site20\n{\n\tOFFSET 0.0 -1.0 -2.5\n\tCHANNELS 9 Zrotation Yrotation Xposition Yposition Zrotation Zrotation Yrotation Yrotation Yposition\n\tJOINT Root219\n\t{\n\t\tOFFSET 12345.678 0.0 0.000001\n\t\tCHANNELS 0\n\t}\n}\nMOTION\nFrames: 0\nFrame Time: 0.0333333\n",
    "HIERARCHY\nROOT Only\n{\n\tOFFSET -0.0 12345.678 16777217.0\n\tCHANNELS 3 Yrotation Yposition Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 0.1\n1.5e-7 1.5e-7 -0.0\n",
    "HIERARCHY\nROOT OnlyEnd\n{\n\tOFFSET 0.1 -0.0 33.333\n\tCHANNELS 2 Xrotation Yposition\n\tEnd Site\n\t{\n\t\tOFFSET 16777217.0 -2.5 1e3\n\t}\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n-2.5 -1.0\n0.1 1e3\n",
    "HIERARCHY\nROOT W\n{\n\tOFFSET 0.000001 -1.0 33.333\n\tCHANNELS 1 Zrotation\n\tJOINT Root221\n\t{\n\t\tOFFSET 1.5e-7 1.5e-7 16777217.0\n\t\tCHANNELS 0\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 12345.678 12345.678 -2.5\n\t\t}\n\t}\n\tJOINT Root222\n\t{\n\t\tOFFSET 0.0 16777217.0 16777217.0\n\t\tCHANNELS 1 Yposition\n\t}\n\tJOINT End23\n\t{\n\t\tOFFSET 1.0 -0.0 -2.5\n\t\tCHANNELS 2 Xrotation Xposition\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 33.333 0.1 -0.0\n\t\t}\n\t}\n\tJOINT arm_L24\n\t{\n\t\tOFFSET 1.0 33.333 -1.0\n\t\tCHANNELS 0\n\t}\n\tJOINT Xposition25\n\t{\n\t\tOFFSET 0.1 0.0 -2.5\n\t\tCHANNELS 1 Zposition\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 0.1 0.1 -1.0\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.02\n0.000001 0.0 -1.0 12345.678 33.333\n",
    "HIERARCHY\nROOT End26\n{\n\tOFFSET 1e3 16777217.0 0.1\n\tCHANNELS 1 Xposition\n\tJOINT J27\n\t{\n\t\tOFFSET -2.5 0.1 -2.5\n\t\tCHANNELS 1 Zrotation\n\t\tJOINT End28\n\t\t{\n\t\t\tOFFSET -2.5 1e3 1.5e-7\n\t\t\tCHANNELS 1 Zposition\n\t\t\tJOINT Site29\n\t\t\t{\n\t\t\t\tOFFSET -0.0 -2.5 0.1\n\t\t\t\tCHANNELS 1 Zrotation\n\t\t\t\tJOINT Root230\n\t\t\t\t{\n\t\t\t\t\tOFFSET -1.0 16777217.0 0.1\n\t\t\t\t\tCHANNELS 1 Yrotation\n\t\t\t\t\tJOINT Root231\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 1e3 33.333 12345.678\n\t\t\t\t\t\tCHANNELS 1 Yrotation\n\t\t\t\t\t\tJOINT Root232\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tOFFSET -2.5 33.333 0.1\n\t\t\t\t\t\t\tCHANNELS 1 Zposition\n\t\t\t\t\t\t\tEnd Site\n\t\t\t\t\t\t\t{\n\t\t\t\t\t\t\t\tOFFSET -0.0 33.333 1e3\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\nMOTION\nFrames: 3\nFrame Time: 0.04\n0.0 12345.678 0.000001 1.0 16777217.0 33.333 0.0\n1e3 1e3 1.0 1e3 0.000001 1.5e-7 16777217.0\n33.333 -0.0 33.333 12345.678 0.1 16777217.0 1e3\n",
    "HIERARCHY\nROOT Hips42\n{\n\tOFFSET 0.000001 -2.5 -1.0\n\tCHANNELS 3 Xposition Xposition Yrotation\n\tJOINT Xposition41\n\t{\n\t\tOFFSET 1.5e-7 33.333 -0.0\n\t\tCHANNELS 1 Xrotation\n\t\tJOINT arm_L36\n\t\t{\n\t\t\tOFFSET 16777217.0 1.0 -2.5\n\t\t\tCHANNELS 3 Zposition Zposition Yposition\n\t\t\tJOINT Hips35\n\t\t\t{\n\t\t\t\tOFFSET 0.1 1e3 0.1\n\t\t\t\tCHANNELS 2 Xposition Zrotation\n\t\t\t\tJOINT J33\n\t\t\t\t{\n\t\t\t\t\tOFFSET 0.000001 12345.678 1e3\n\t\t\t\t\tCHANNELS 0\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 33.333 -2.5 1e3\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tJOINT Root234\n\t\t\t\t{\n\t\t\t\t\tOFFSET 1.5e-7 0.000001 16777217.0\n\t\t\t\t\tCHANNELS 2 Yrotation Zposition\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET -1.0 -2.5 -1.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tJOINT J40\n\t\t{\n\t\t\tOFFSET -1.0 16777217.0 0.000001\n\t\t\tCHANNELS 3 Xrotation Yposition Zposition\n\t\t\tJOINT Hips38\n\t\t\t{\n\t\t\t\tOFFSET 0.000001 16777217.0 12345.678\n\t\t\t\tCHANNELS 0\n\t\t\t\tJOINT Xposition37\n\t\t\t\t{\n\t\t\t\t\tOFFSET 33.333 33.333 33.333\n\t\t\t\t\tCHANNELS 1 Xposition\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 0.000001 0.1 1.5e-7\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\tJOINT Hips39\n\t\t\t{\n\t\t\t\tOFFSET 1e3 12345.678 1.0\n\t\t\t\tCHANNELS 0\n\t\t\t\tEnd Site\n\t\t\t\t{\n\t\t\t\t\tOFFSET 0.000001 -1.0 12345.678\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 3.25\n-2.5 0.000001 -1.0 16777217.0 33.333 16777217.0 1.0 0.0 16777217.0 0.0 0.0 1.0 -2.5 33.333 -2.5\n",
    "HIERARCHY\nROOT Root249\n{\n\tOFFSET -0.0 0.1 1e3\n\tCHANNELS 3 Zrotation Xrotation Zposition\n\tJOINT Site48\n\t{\n\t\tOFFSET 1e3 -0.0 12345.678\n\t\tCHANNELS 1 Yrotation\n\t\tJOINT offset47\n\t\t{\n\t\t\tOFFSET 1.5e-7 0.0 -1.0\n\t\t\tCHANNELS 3 Yrotation Yrotation Yposition\n\t\t\tJOINT Root243\n\t\t\t{\n\t\t\t\tOFFSET 12345.678 0.000001 1e3\n\t\t\t\tCHANNELS 3 Zposition Zrotation Xposition\n\t\t\t\tEnd Site\n\t\t\t\t{\n\t\t\t\t\tOFFSET 1.0 -1.0 -2.5\n\t\t\t\t}\n\t\t\t}\n\t\t\tJOINT Hips46\n\t\t\t{\n\t\t\t\tOFFSET -2.5 0.1 1e3\n\t\t\t\tCHANNELS 2 Xposition Yrotation\n\t\t\t\tJOINT Root244\n\t\t\t\t{\n\t\t\t\t\tOFFSET 12345.678 0.000001 -0.0\n\t\t\t\t\tCHANNELS 1 Yrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 16777217.0 1.0 1e3\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tJOINT Root245\n\t\t\t\t{\n\t\t\t\t\tOFFSET 16777217.0 1.0 -2.5\n\t\t\t\t\tCHANNELS 0\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 16777217.0 -1.0 16777217.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.016666\n0.0 33.333 -1.0 12345.678 16777217.0 0.1 -0.0 -0.0 -2.5 1e3 0.1 1.0 -2.5\n",
    "HIERARCHY\nROOT End53\n{\n\tOFFSET -1.0 -1.0 1.0\n\tCHANNELS 3 Yposition Zrotation Zposition\n\tJOINT Hips50\n\t{\n\t\tOFFSET 0.000001 1e3 1.0\n\t\tCHANNELS 0\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 16777217.0 1e3 12345.678\n\t\t}\n\t}\n\tJOINT End52\n\t{\n\t\tOFFSET 33.333 0.0 1e3\n\t\tCHANNELS 1 Yposition\n\t\tJOINT Site51\n\t\t{\n\t\t\tOFFSET 33.333 0.1 12345.678\n\t\t\tCHANNELS 0\n\t\t\tEnd Site\n\t\t\t{\n\t\t\t\tOFFSET 1.0 16777217.0 -1.0\n\t\t\t}\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.0333333\n0.000001 33.333 -2.5 0.000001\n",
    "HIERARCHY\nROOT Xposition61\n{\n\tOFFSET 0.1 12345.678 -2.5\n\tCHANNELS 0\n\tJOINT Xposition60\n\t{\n\t\tOFFSET 16777217.0 0.000001 12345.678\n\t\tCHANNELS 3 Xposition Yposition Zposition\n\t\tJOINT End58\n\t\t{\n\t\t\tOFFSET 0.0 33.333 0.1\n\t\t\tCHANNELS 0\n\t\t\tJOINT J54\n\t\t\t{\n\t\t\t\tOFFSET -0.0 12345.678 12345.678\n\t\t\t\tCHANNELS 0\n\t\t\t\tEnd Site\n\t\t\t\t{\n\t\t\t\t\tOFFSET -2.5 -0.0 1e3\n\t\t\t\t}\n\t\t\t}\n\t\t\tJOINT offset57\n\t\t\t{\n\t\t\t\tOFFSET 0.0 -1.0 0.1\n\t\t\t\tCHANNELS 1 Yposition\n\t\t\t\tJOINT offset55\n\t\t\t\t{\n\t\t\t\t\tOFFSET 16777217.0 -0.0 1.5e-7\n\t\t\t\t\tCHANNELS 3 Xrotation Yposition Zrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 12345.678 33.333 12345.678\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tJOINT Hips56\n\t\t\t\t{\n\t\t\t\t\tOFFSET 1.5e-7 33.333 -2.5\n\t\t\t\t\tCHANNELS 1 Yrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 1.5e-7 12345.678 0.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tJOINT offset59\n\t\t{\n\t\t\tOFFSET -1.0 -2.5 1e3\n\t\t\tCHANNELS 0\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.016666\n-2.5 33.333 1.0 16777217.0 0.0 1.0 0.0 12345.678\n",
    "HIERARCHY\nROOT Xposition66\n{\n\tOFFSET 0.0 1.5e-7 12345.678\n\tCHANNELS 3 Zrotation Zrotation Yposition\n\tJOINT Site63\n\t{\n\t\tOFFSET -1.0 -0.0 0.0\n\t\tCHANNELS 3 Xrotation Xposition Xposition\n\t\tJOINT End62\n\t\t{\n\t\t\tOFFSET 16777217.0 1.5e-7 1.0\n\t\t\tCHANNELS 2 Yposition Xposition\n\t\t\tEnd Site\n\t\t\t{\n\t\t\t\tOFFSET 0.0 0.0 0.000001\n\t\t\t}\n\t\t}\n\t}\n\tJOINT Hips65\n\t{\n\t\tOFFSET 12345.678 0.000001 33.333\n\t\tCHANNELS 1 Yrotation\n\t\tJOINT End64\n\t\t{\n\t\t\tOFFSET 33.333 0.1 1.5e-7\n\t\t\tCHANNELS 3 Yrotation Zrotation Zrotation\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.016666\n-0.0 1.0 1e3 -1.0 12345.678 0.000001 0.0 0.0 1.0 33.333 -2.5 0.0\n",
    "HIERARCHY\nROOT Xposition69\n{\n\tOFFSET 12345.678 16777217.0 1e3\n\tCHANNELS 0\n\tJOINT Xposition67\n\t{\n\t\tOFFSET 0.000001 -0.0 -0.0\n\t\tCHANNELS 0\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 0.0 1.5e-7 0.0\n\t\t}\n\t}\n\tJOINT J68\n\t{\n\t\tOFFSET 16777217.0 16777217.0 -0.0\n\t\tCHANNELS 3 Xposition Yrotation Xposition\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 33.333 33.333 -1.0\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.016666\n1e3 -1.0 16777217.0\n",
    "HIERARCHY\nROOT arm_L80\n{\n\tOFFSET -0.0 -0.0 0.000001\n\tCHANNELS 3 Yposition Yposition Zrotation\n\tJOINT arm_L79\n\t{\n\t\tOFFSET 1.5e-7 16777217.0 12345.678\n\t\tCHANNELS 1 Xrotation\n\t\tJOINT J75\n\t\t{\n\t\t\tOFFSET 16777217.0 0.1 1.0\n\t\t\tCHANNELS 0\n\t\t\tJOINT offset71\n\t\t\t{\n\t\t\t\tOFFSET 1.0 0.1 0.0\n\t\t\t\tCHANNELS 2 Zposition Xposition\n\t\t\t\tJOINT arm_L70\n\t\t\t\t{\n\t\t\t\t\tOFFSET 0.0 0.0 -1.0\n\t\t\t\t\tCHANNELS 1 Yposition\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET -2.5 1e3 0.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\tJOINT Root274\n\t\t\t{\n\t\t\t\tOFFSET 0.000001 -2.5 33.333\n\t\t\t\tCHANNELS 1 Zposition\n\t\t\t\tJOINT Hips72\n\t\t\t\t{\n\t\t\t\t\tOFFSET -1.0 33.333 16777217.0\n\t\t\t\t\tCHANNELS 2 Xposition Xrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 0.000001 33.333 -2.5\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tJOINT Root273\n\t\t\t\t{\n\t\t\t\t\tOFFSET 1.0 1.0 16777217.0\n\t\t\t\t\tCHANNELS 2 Xposition Xrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 12345.678 -2.5 0.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tJOINT Xposition78\n\t\t{\n\t\t\tOFFSET 16777217.0 -2.5 -2.5\n\t\t\tCHANNELS 3 Xposition Yrotation Yrotation\n\t\t\tJOINT Root277\n\t\t\t{\n\t\t\t\tOFFSET 0.0 -0.0 1.5e-7\n\t\t\t\tCHANNELS 1 Xposition\n\t\t\t\tJOINT End76\n\t\t\t\t{\n\t\t\t\t\tOFFSET 1e3 0.1 16777217.0\n\t\t\t\t\tCHANNELS 2 Zrotation Yposition\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 0.0 0.0 1.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 3.25\n-2.5 -2.5 1.5e-7 0.000001 1.5e-7 33.333 12345.678 33.333 -2.5 1.5e-7 0.1 -1.0 33.333 33.333 0.1 1.5e-7 12345.678 -0.0\n",
    "HIERARCHY\nROOT Hips89\n{\n\tOFFSET 12345.678 -1.0 1.5e-7\n\tCHANNELS 2 Zrotation Xposition\n\tJOINT Xposition87\n\t{\n\t\tOFFSET -0.0 0.000001 0.000001\n\t\tCHANNELS 0\n\t\tJOINT End85\n\t\t{\n\t\t\tOFFSET 0.000001 0.1 1.0\n\t\t\tCHANNELS 0\n\t\t\tJOINT Site82\n\t\t\t{\n\t\t\t\tOFFSET -2.5 1e3 1.0\n\t\t\t\tCHANNELS 1 Zposition\n\t\t\t\tJOINT End81\n\t\t\t\t{\n\t\t\t\t\tOFFSET 1.0 -0.0 1e3\n\t\t\t\t\tCHANNELS 2 Xposition Zrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 33.333 0.1 1.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\tJOINT Hips84\n\t\t\t{\n\t\t\t\tOFFSET 1e3 16777217.0 16777217.0\n\t\t\t\tCHANNELS 2 Xrotation Xposition\n\t\t\t\tJOINT J83\n\t\t\t\t{\n\t\t\t\t\tOFFSET -0.0 -2.5 0.0\n\t\t\t\t\tCHANNELS 2 Yposition Yrotation\n\t\t\t\t\tEnd Site\n\t\t\t\t\t{\n\t\t\t\t\t\tOFFSET 33.333 -2.5 1.0\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tJOINT End86\n\t\t{\n\t\t\tOFFSET 33.333 16777217.0 0.000001\n\t\t\tCHANNELS 3 Yposition Zrotation Zrotation\n\t\t\tEnd Site\n\t\t\t{\n\t\t\t\tOFFSET 1.5e-7 -0.0 0.0\n\t\t\t}\n\t\t}\n\t}\n\tJOINT Site88\n\t{\n\t\tOFFSET 0.0 16777217.0 0.1\n\t\tCHANNELS 3 Yposition Yposition Xposition\n\t\tEnd Site\n\t\t{\n\t\t\tOFFSET 1.5e-7 33.333 0.0\n\t\t}\n\t}\n}\nMOTION\nFrames: 1\nFrame Time: 0.016666\n1e3 33.333 0.000001 -0.0 -2.5 1e3 0.000001 1.5e-7 1e3 0.000001 0.000001 33.333 0.000001 -2.5 1e3\n",
];
