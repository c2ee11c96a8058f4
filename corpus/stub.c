/*=============================================================================
    Copyright (c) 2006 Joel de Guzman
    http://spirit.sourceforge.net/

    Use, modification and distribution is subject to the Boost Software
    License, Version 1.0. (See accompanying file LICENSE_1_0.txt or copy at
    http://www.boost.org/LICENSE_1_0.txt)
=============================================================================*/

/*`
This should appear when =stub.c= is included.

[foo_c]
*/

/*[foo_c */
    /*`
    This is the C [*['foo]] function.

    This description can have paragraphs...

    * lists
    * etc.

    And any quickbook block markup.
    */
char* foo()
{
    // return 'em, foo man!
    return "foo";
}
/*]*/
